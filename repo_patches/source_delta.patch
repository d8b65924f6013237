From 87d35de81b6427fdb85e04fad4e15fbae4f6bc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 01/36] fix: popping an instruction promotes its proximate
 successors in the dependency dag

pop_head is called on instructions without predecessors, so only looking at the
predecessors never moved the next link of a proximate chain to the proximate heads.
---
 include/lsqecc/dag/dependency_dag.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/lsqecc/dag/dependency_dag.hpp b/include/lsqecc/dag/dependency_dag.hpp
index b9f44d5..aefe713 100644
--- a/include/lsqecc/dag/dependency_dag.hpp
+++ b/include/lsqecc/dag/dependency_dag.hpp
@@ -89,6 +89,14 @@ struct DependencyDag
                 proximate_dependencies_.erase({predecessor, label});
             }
         }
+        for(label_t successor: graph_.successors(label))
+        {
+            if(proximate_dependencies_.contains({label, successor}))
+            {
+                proximate_heads_.insert(successor);
+                proximate_dependencies_.erase({label, successor});
+            }
+        }
         graph_.remove_node(label);
 
         if(proximate_heads_.contains(label))
-- 
2.43.0


From 2001a6741c37bda81904373912ed3e01af4b3ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 02/36] fix: do not modify the proximate dependencies while
 iterating over them

Expanding an instruction that takes part in a proximate dependency erased from and
inserted into the set being iterated, and inserted a pair through a reference to an
erased element.
---
 include/lsqecc/dag/dependency_dag.hpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/include/lsqecc/dag/dependency_dag.hpp b/include/lsqecc/dag/dependency_dag.hpp
index aefe713..6aa5fc3 100644
--- a/include/lsqecc/dag/dependency_dag.hpp
+++ b/include/lsqecc/dag/dependency_dag.hpp
@@ -126,19 +126,14 @@ struct DependencyDag
         
 
         // Now do the proximity bookkeeping for the extremes of the replacement
-        for (auto&[from, to]: proximate_dependencies_)
+        SetOfPairs<label_t, label_t> updated_proximate_dependencies;
+        for (const auto& [from, to]: proximate_dependencies_)
         {
-            if (from == target)
-            {
-                proximate_dependencies_.erase({from, to});
-                proximate_dependencies_.insert({new_lables.back(), to});
-            }
-            if (to == target)
-            {
-                proximate_dependencies_.erase({from, to});
-                proximate_dependencies_.insert({from, new_lables.front()});
-            }
+            updated_proximate_dependencies.insert({
+                from == target ? new_lables.back() : from,
+                to == target ? new_lables.front() : to});
         }
+        proximate_dependencies_ = std::move(updated_proximate_dependencies);
 
         if (proximate_heads_.contains(target))
         {
-- 
2.43.0


From 25ee58f7b6fe15db41fe048c5b2dafa39b5a2973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 03/36] fix: str_replace keeps the text after the last replaced
 character

---
 include/lstk/lstk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 23f27c3..6bda164 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -216,6 +216,7 @@ static inline std::string str_replace(std::string_view s, char target, std::stri
         out << s.substr(0,s.find(target)) << replace_with;
         s = s.substr(s.find(target)+1,s.length());
     }
+    out << s;
     return out.str();
 }
 
-- 
2.43.0


From c63ccde4050e73dca7ad8249c56ff00a3a821f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 04/36] fix: splitting on a string stays inside the text

The comparison with the delimiter read past the end of the text, could match a delimiter
that is only completed by what follows the text and then never found the end, and missed
the empty part after a trailing delimiter.
---
 include/lstk/lstk.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 6bda164..1a42943 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -113,9 +113,14 @@ static inline std::vector<std::string_view> split_on(std::string_view s, std::st
         ret.emplace_back(accum_begin, static_cast<size_t>(std::distance(accum_begin, accum_end)));
     };
 
+    auto at_delim = [&](std::string_view::iterator pos)
+    {
+        return static_cast<size_t>(std::distance(pos, s.end())) >= delim.size() && std::equal(delim.begin(), delim.end(), pos);
+    };
+
     while (accum_end != s.end())
     {
-        if (std::equal(delim.begin(), delim.end(), accum_end))
+        if (at_delim(accum_end))
         {
             push_accum_to_ret();
             accum_end += delim.size(); // skip the delim
@@ -128,7 +133,7 @@ static inline std::vector<std::string_view> split_on(std::string_view s, std::st
         push_accum_to_ret();
 
     // Add a trailing empty string when finishing on a delimiter
-    else if(accum_begin > s.begin() && std::equal(delim.begin(), delim.end(), accum_end)) ret.push_back("");
+    else if(accum_begin > s.begin() && at_delim(accum_begin - static_cast<std::ptrdiff_t>(delim.size()))) ret.push_back("");
 
     return ret;
 }
-- 
2.43.0


From 1cd28caab4a336283e6a5ce614e91d511d45766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 05/36] fix: an even multiple of pi is not a Z rotation

---
 src/gates/parse_gates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 268e548..2f4d2fe 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -191,9 +191,9 @@ gates::Gate parse_qasm_gate(const Line& line)
 
         Fraction fraction = parse_angle(get_arg_in_brackets(line.instruction));
 
-        if(fraction.den == 1)
+        if(fraction.den == 1 && fraction.num % 2 != 0)
         {
-            // Multiples of PI are Z with a global phase
+            // Odd multiples of PI are Z with a global phase
             return gates::Z(get_index_arg(line.args.at(0)));
         }
 
-- 
2.43.0


From c1e6e4c8d984861ad6309788bb5047733f7dbafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 06/36] fix: a rotation by -pi/2 is the inverse S gate

---
 src/ls_instructions/ls_instruction_stream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ls_instructions/ls_instruction_stream.cpp b/src/ls_instructions/ls_instruction_stream.cpp
index a72b382..414831a 100644
--- a/src/ls_instructions/ls_instruction_stream.cpp
+++ b/src/ls_instructions/ls_instruction_stream.cpp
@@ -101,10 +101,10 @@ LSInstruction LSInstructionStreamFromGateStream::get_next_instruction()
             if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 1)
                 next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::Z}}});
             else if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 2)
-                next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::S}}});
+                next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::S, rz_gate->pi_fraction.is_negative}}});
             else if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 4)
             {
-                auto instructions = instruction_generator_.make_t_gate_instructions(rz_gate->target_qubit);
+                auto instructions = instruction_generator_.make_t_gate_instructions(rz_gate->target_qubit, rz_gate->pi_fraction.is_negative);
                 lstk::queue_extend(next_instructions_, instructions);
             }
 
-- 
2.43.0


From 935cd0aa8dd56be3014d7fbc28583843606082bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 07/36] fix: other gates whose name starts with rz are not read
 as rz

---
 src/gates/parse_gates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 2f4d2fe..023deb7 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -184,7 +184,7 @@ gates::Gate parse_qasm_gate(const Line& line)
                 determine_cnot_ancilla_placement(line.annotations));
     }
 
-    if(line.instruction.substr(0,2) == "rz")
+    if(line.instruction.substr(0,3) == "rz(")
     {
         if (get_arg_in_brackets(line.instruction) == "pi*-1")
             return gates::Z(get_index_arg(line.args.at(0)));
-- 
2.43.0


From bdef7dfa234e0593202fcb8335e4f8d6ba3a6cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 08/36] fix: do not read past the end of short or incomplete
 gate lines

---
 src/gates/parse_gates.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 023deb7..db4b895 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -198,7 +198,7 @@ gates::Gate parse_qasm_gate(const Line& line)
         }
 
         return gates::RZ{
-            get_index_arg(line.args[0]),
+            get_index_arg(line.args.at(0)),
             fraction
             };
     }
@@ -207,8 +207,8 @@ gates::Gate parse_qasm_gate(const Line& line)
         if(line.instruction.substr(3,4) == "(pi/")
         {
             return gates::CRZ(
-                get_index_arg(line.args[1]),
-                get_index_arg(line.args[0]),
+                get_index_arg(line.args.at(1)),
+                get_index_arg(line.args.at(0)),
                 parse_angle(get_arg_in_brackets(line.instruction)),
                 determine_cnot_type(line.annotations),
                 determine_cnot_ancilla_placement(line.annotations));
@@ -260,7 +260,7 @@ ParseGateResult parse_gate(std::string_view str_line)
     str_line = std::string_view { sline };
 
     // check for comment at beginning of line
-    if (str_line[0]=='/' && str_line[1] == '/')
+    if (str_line.starts_with("//"))
     {
         return IgnoredInstruction{};
     }
-- 
2.43.0


From 388fc6892eb034f91eda19612e85769d75017baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 09/36] fix: qubit indexes that do not fit are refused instead
 of wrapped

---
 src/gates/parse_gates.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index db4b895..f3f0fc1 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -5,6 +5,7 @@
 #include <vector>
 #include <stdexcept>
 #include <iostream>
+#include <utility>
 
 namespace lsqecc {
 
@@ -29,7 +30,7 @@ Integer try_parse_int(std::string_view sv)
 
     errno = 0;
     char* endptr;
-    Integer res = std::strtol(s.c_str(), &endptr, 10);
+    const long long res = std::strtoll(s.c_str(), &endptr, 10);
 
     if (errno != 0)
         throw GateParseException(lstk::cat("Could not parse ", s, "as string, strtol gave errno: ",
@@ -39,9 +40,12 @@ Integer try_parse_int(std::string_view sv)
     if (*endptr != '\0')
         throw GateParseException(lstk::cat("Could not parse ", s, ". Further characters after number"));
 
+    if (!std::in_range<Integer>(res))
+        throw GateParseException(lstk::cat("Could not parse ", s, ". Number out of range"));
+
 //    if(std::to_string(res) != s)
 //        throw GateParseException(std::string{"Could not parse "} + s + "as string, atol gave "+std::to_string(res));
-    return res;
+    return static_cast<Integer>(res);
 }
 
 Line split_instruction_and_args(std::string_view gate_str)
-- 
2.43.0


From af7b45e7ab5fba8cae98d4c2607ba4153caba6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:01 +0000
Subject: [PATCH 10/36] fix: gates are printed as the OpenQASM text that reads
 back as them

---
 src/gates/gates.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index f22577f..82ffc8c 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -220,7 +220,7 @@ std::ostream& operator<<(std::ostream& os, const gates::Gate& gate)
             }() << " q[" << gate.target_qubit << "];";
         },
         [&](const RZ& rz){
-            os << "rz("<<rz.pi_fraction.num<<"pi/"<<rz.pi_fraction.den<<") q["<<rz.target_qubit<<"];";
+            os << "rz(" << (rz.pi_fraction.is_negative ? "-" : "") << print_pi_fraction(rz.pi_fraction) << ") q[" << rz.target_qubit << "];";
         },
         [&](const ControlledGate& ctrld){
             return std::visit(lstk::overloaded{
@@ -243,13 +243,13 @@ std::ostream& operator<<(std::ostream& os, const gates::Gate& gate)
                 [&](const RZ& rz){
                     os << "crz(";
                     if(rz.pi_fraction.num != 1)
-                        os << rz.pi_fraction.num << "*pi";
+                        os << rz.pi_fraction.num << "*";
                     os <<"pi/"<<rz.pi_fraction.den << ") q[" << ctrld.control_qubit << "],q[" << rz.target_qubit << "];";
                 },
             }, ctrld.target_gate);
         },
         [&](const Reset& reset){
-            os << "reset" << "q[" << reset.target_qubit << "]";
+            os << "reset " << reset.register_name << "[" << reset.target_qubit << "];";
         }
     }, gate);
 
-- 
2.43.0


From 91877e4fbf34f0c77ae18d6250a759b511341e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:45 +0000
Subject: [PATCH 11/36] fix: angles written n*pi are parsed from text that is
 still alive

---
 src/gates/parse_gates.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index f3f0fc1..c4d4374 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -127,12 +127,14 @@ Fraction parse_angle(std::string_view s)
     if(s.starts_with("pi/"))
         return Fraction{1,try_parse_int<ArbitraryPrecisionInteger>(s.substr(3)), is_negative};
 
+    std::string ns; // outlives the parts that split refers to
+
     // use split on with *pi/ as delimiter
     auto split = lstk::split_on(s,"*pi/");
     if(split.size() != 2) {
         //Is this an angle of the form 3*pi?
         // not sure why but maybe we need something like
-        std::string ns = std::string(s) + "/1";
+        ns = std::string(s) + "/1";
 
         split = lstk::split_on(ns,"*pi/");
         if(split.size() != 2)
-- 
2.43.0


From 674008c702de4c7800085f3cd9e0525af45d179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:16 +0000
Subject: [PATCH 12/36] fix: a patch id is a whole unsigned number, not a
 number followed by something else

---
 src/ls_instructions/parse_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ls_instructions/parse_utils.cpp b/src/ls_instructions/parse_utils.cpp
index 4cac4e4..0db5fc8 100644
--- a/src/ls_instructions/parse_utils.cpp
+++ b/src/ls_instructions/parse_utils.cpp
@@ -10,9 +10,9 @@ namespace lsqecc
 
 PatchId parse_patch_id(const std::string_view & input)
 {
-    int out;
+    PatchId out;
     const std::from_chars_result result = std::from_chars(input.data(), input.data() + input.size(), out);
-    if(result.ec == std::errc::invalid_argument || result.ec == std::errc::result_out_of_range)
+    if(result.ec != std::errc{} || result.ptr != input.data() + input.size())
     {
         throw std::runtime_error(std::string{"Cannot parse patch id: "}+std::string{input});
     }
-- 
2.43.0


From ae6b98914e02ea88af290ff4db72ab0c0e1d1d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:16 +0000
Subject: [PATCH 13/36] fix: BellPairInit with a single location is refused

---
 src/ls_instructions/ls_instructions_parse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 27f2e77..92ff02a 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -127,6 +127,8 @@ LSInstruction parse_ls_instruction(std::string_view line)
             locs.push_back(PlaceNexTo{parse_patch_id(assoc[0]), PauliOperator_from_string(assoc[1])});
             counter++;
         }
+        if (locs.size() != 2)
+            throw InstructionParseException{"BellPairInit needs two locations."};
         return {BellPairInit{side1, side2, locs[0], locs[1]}};
     }      
     else if(instruction == "RequestYState" || instruction == "9")
-- 
2.43.0


From bebe6e3480fd28ba2b799e4c0e60702b99d8c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:16 +0000
Subject: [PATCH 14/36] fix: instructions read from text depend on the patch
 they are placed next to

---
 src/ls_instructions/ls_instructions_parse.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 92ff02a..105cfa8 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -67,7 +67,10 @@ LSInstruction parse_ls_instruction(std::string_view line)
             place_next_to = PlaceNexTo{parse_patch_id(placement_info.at(0)),PauliOperator_from_string(placement_info.at(1))}; 
         }
 
-        return {.operation = PatchInit{patch_id, state, place_next_to}, .clients = {patch_id}};
+        LSInstruction init{.operation = PatchInit{patch_id, state, place_next_to}, .clients = {patch_id}};
+        if(place_next_to)
+            init.clients.insert(place_next_to->target);
+        return init;
     }
     else if(instruction == "MeasureSinglePatch" || instruction == "1")
     {
@@ -84,7 +87,7 @@ LSInstruction parse_ls_instruction(std::string_view line)
     {
         auto target = parse_patch_id(get_next_arg());
         auto near_patch = parse_patch_id(get_next_arg());
-        return {MagicStateRequest{target, near_patch}, MagicStateRequest::DEFAULT_WAIT};
+        return {.operation=MagicStateRequest{target, near_patch}, .wait_at_most_for=MagicStateRequest::DEFAULT_WAIT, .clients={near_patch}};
     }
     else if (instruction == "LogicalPauli" || instruction == "4")
     {
@@ -135,7 +138,7 @@ LSInstruction parse_ls_instruction(std::string_view line)
     {
         auto target = parse_patch_id(get_next_arg());
         auto near_patch = parse_patch_id(get_next_arg());
-        return {YStateRequest{target, near_patch}, YStateRequest::DEFAULT_WAIT};
+        return {.operation=YStateRequest{target, near_patch}, .wait_at_most_for=YStateRequest::DEFAULT_WAIT, .clients={near_patch}};
     }
     else if (instruction == "BellBasedCNOT" || instruction == "10")
     {
-- 
2.43.0


From 8e219e1930e5137f8cf3776582f58eb5c95203a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:40 +0000
Subject: [PATCH 15/36] fix: joining numbers does not turn the first one into a
 character

---
 include/lstk/lstk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 1a42943..fedb6bd 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -264,7 +264,7 @@ std::string join(IterableOfStringifiables iterable_of_stringifiables, std::strin
     bool begin = true;
     for(const auto& v: iterable_of_stringifiables)
     {
-        if(begin) acc = v;
+        if(begin) acc = lstk::cat(v);
         else acc = lstk::cat(acc, separator, v);
         begin = false;
     }
-- 
2.43.0


From 8b73a85ddc861e47f3d5939f009080650327e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:56 +0000
Subject: [PATCH 16/36] fix: a reset operates on its qubit

---
 src/gates/gates.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index 82ffc8c..8061f9c 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -161,14 +161,14 @@ tsl::ordered_set<QubitNum> get_operating_qubits(const Gate& gate)
                 [&](const RZ& tg){
                     res.insert(tg.target_qubit);
                 },
-                [&](const Reset& reset){
-                    res.insert(reset.target_qubit);
-                },
                 [&](const auto&){
                     LSTK_UNREACHABLE;
                 }
             }, g.target_gate);
         },
+        [&](const Reset& reset){
+            res.insert(reset.target_qubit);
+        },
         [&](const auto&){
             LSTK_UNREACHABLE;
         }
-- 
2.43.0


From 3fcf1fbf7090dc627749f1726ae1f5716b0a96ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:35 +0000
Subject: [PATCH 17/36] fix: decomposing a controlled rotation keeps the sign
 of its angle

---
 src/gates/gates.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index 8061f9c..e8703de 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -22,21 +22,24 @@ std::vector<Gate> decompose_CRZ_gate(const ControlledGate &crz_gate, double rz_p
     std::vector<Gate> res;
     lstk::vector_extend(res, decompose(
             RZ{crz_gate.control_qubit, Fraction{rz_gate.pi_fraction.num,
-                                                rz_gate.pi_fraction.den * 2}},
+                                                rz_gate.pi_fraction.den * 2,
+                                                rz_gate.pi_fraction.is_negative}},
             rz_precision_log_ten_negative
         )
     );
     lstk::vector_extend(res, decompose(
             RZ{rz_gate.target_qubit, Fraction{rz_gate.pi_fraction.num,
-                                              rz_gate.pi_fraction.den * 2}},
+                                              rz_gate.pi_fraction.den * 2,
+                                              rz_gate.pi_fraction.is_negative}},
             rz_precision_log_ten_negative
         )
     );
     res.emplace_back(
             CNOT(rz_gate.target_qubit, crz_gate.control_qubit, crz_gate.cnot_type, crz_gate.cnot_ancilla_placement));
     lstk::vector_extend(res, decompose(
-            RZ{rz_gate.target_qubit, Fraction{-rz_gate.pi_fraction.num,
-                                              rz_gate.pi_fraction.den * 2}},
+            RZ{rz_gate.target_qubit, Fraction{rz_gate.pi_fraction.num,
+                                              rz_gate.pi_fraction.den * 2,
+                                              !rz_gate.pi_fraction.is_negative}},
             rz_precision_log_ten_negative
         )
     );
-- 
2.43.0


From 414ebcd0b7a5754f0917177a7d75c533d7881aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:35 +0000
Subject: [PATCH 18/36] fix: boundary rotation injection takes the program's
 own rotations into account

---
 src/ls_instructions/boundary_rotation_injection_stream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ls_instructions/boundary_rotation_injection_stream.cpp b/src/ls_instructions/boundary_rotation_injection_stream.cpp
index 4fb3a31..42fd58c 100644
--- a/src/ls_instructions/boundary_rotation_injection_stream.cpp
+++ b/src/ls_instructions/boundary_rotation_injection_stream.cpp
@@ -79,6 +79,11 @@ LSInstruction BoundaryRotationInjectionStream::get_next_instruction()
         } 
 
     }
+    else if (const auto* rotation = std::get_if<RotateSingleCellPatch>(&new_instruction.operation))
+    {
+        if (exposed_operators_.contains(rotation->target))
+            exposed_operators_.at(rotation->target).rotate();
+    }
     
     next_instructions_.push(new_instruction);
 
-- 
2.43.0


From b9b27dc03c226249c7484a38eb34dfa591c9293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:39 +0000
Subject: [PATCH 19/36] fix: the Boost based route search only joined free
 cells to occupied ones and ignored path lengths

---
 .../graph_search/boost_based_graph_search.cpp     | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/layout/graph_search/boost_based_graph_search.cpp b/src/layout/graph_search/boost_based_graph_search.cpp
index d5e2999..d1d384f 100644
--- a/src/layout/graph_search/boost_based_graph_search.cpp
+++ b/src/layout/graph_search/boost_based_graph_search.cpp
@@ -61,7 +61,7 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
         {
             Cell current{row_idx, col_idx};
             vertices.push_back(make_vertex(current));
-            if (!slice.is_cell_free(current))
+            if (slice.is_cell_free(current))
                 for (const Cell& neighbour: current.get_neigbours_within_bounding_box_inclusive({0, 0}, furthest_cell))
                     if (slice.is_cell_free(neighbour))
                         edges.emplace_back(make_vertex(neighbour), make_vertex(current));
@@ -73,7 +73,7 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
     const auto source_cell = *slice.get_cell_by_id(source);
     for (Cell neighbour: slice.get_neigbours_within_slice(source_cell))
     {
-        if (slice.have_boundary_of_type_with(source_cell, neighbour, source_op))
+        if (slice.is_cell_free(neighbour) && slice.have_boundary_of_type_with(source_cell, neighbour, source_op))
             edges.emplace_back(make_vertex(source_cell), make_vertex(neighbour));
 
     }
@@ -88,11 +88,18 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
 
     for (Cell neighbour: slice.get_neigbours_within_slice(target_cell))
     {
-        if (slice.have_boundary_of_type_with(target_cell, neighbour,target_op))
+        if (slice.is_cell_free(neighbour) && slice.have_boundary_of_type_with(target_cell, neighbour,target_op))
             edges.emplace_back(make_vertex(neighbour), target_vertex);
+
+        // Source and target touch
+        if (neighbour == source_cell
+                && slice.have_boundary_of_type_with(source_cell, target_cell, source_op)
+                && slice.have_boundary_of_type_with(target_cell, source_cell, target_op))
+            edges.emplace_back(make_vertex(source_cell), target_vertex);
     }
 
-    Graph g{edges.begin(), edges.end(), vertices.size()};
+    const std::vector<int> weights(edges.size(), 1);
+    Graph g{edges.begin(), edges.end(), weights.begin(), vertices.size() + (target==source ? 1 : 0)};
 
     property_map<Graph, vertex_predecessor_t>::type p
             = get(vertex_predecessor, g);
-- 
2.43.0


From 2979fd9a14adbcc0999a7cc124349725eab57079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:31 +0000
Subject: [PATCH 20/36] fix: a patch is not created when its id is taken or its
 neighbour is not on the lattice

---
 src/patches/dense_patch_computation.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index da43fae..bcc4a07 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -66,10 +66,11 @@ std::optional<Cell> find_free_ancilla_location(const Layout& layout, const Dense
 
 std::optional<Cell> place_ancilla_next_to(const DenseSlice& slice, PatchId target, PauliOperator boundary_op)
 {
-    Cell target_cell = slice.get_cell_by_id(target).value();
-    for(const Cell& possible_ancilla_location : slice.get_neigbours_within_slice(target_cell))
+    std::optional<Cell> target_cell = slice.get_cell_by_id(target);
+    if (!target_cell) return std::nullopt;
+    for(const Cell& possible_ancilla_location : slice.get_neigbours_within_slice(*target_cell))
     {
-        auto boundary = slice.get_boundary_between(target_cell, possible_ancilla_location);
+        auto boundary = slice.get_boundary_between(*target_cell, possible_ancilla_location);
         if(boundary && boundary->get().boundary_type == boundary_for_operator(boundary_op) && slice.is_cell_free(possible_ancilla_location))
             return possible_ancilla_location;
     }
@@ -856,6 +857,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
     }
     else if (const auto* init = std::get_if<PatchInit>(&instruction.operation))
     {
+        if (slice.has_patch(init->target))
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", init->target, " already on lattice")), {}};
+
         auto location= init->place_next_to ?
                   place_ancilla_next_to(slice, init->place_next_to->target, init->place_next_to->op)
                 : find_free_ancilla_location(layout, slice);
-- 
2.43.0


From 0ae23f4c67bac8953accee107c09ae630fc9733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:31 +0000
Subject: [PATCH 21/36] fix: a magic state request is refused when its id is
 taken or the patch it is for is not on the lattice

---
 src/patches/dense_patch_computation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index bcc4a07..c223f00 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1289,6 +1289,11 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         const auto& d_times = layout.distillation_times();
         if (!d_times.size()) throw std::logic_error("No distillation times");
 
+        if (slice.has_patch(mr->target))
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", mr->target, " already on lattice")), {}};
+        if (!slice.has_patch(mr->near_patch))
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", mr->near_patch, " not on lattice")), {}};
+
         if (slice.magic_states.size()>0)
         {
             std::optional<Cell> min_cell;
-- 
2.43.0


From 253841c2e7339b632f4fb21192eeb89385fa3d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:32 +0000
Subject: [PATCH 22/36] fix: only Y states are given back, and requests for
 patches that are not on the lattice are refused

---
 src/patches/dense_patch_computation.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index c223f00..431e05b 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1326,13 +1326,28 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
     else if (auto* yr = std::get_if<YStateRequest>(&instruction.operation))
     {
         // Unbind Y state patch if already bound
-        if (slice.get_patch_by_id(yr->target))
+        if (auto bound_cell = slice.get_cell_by_id(yr->target))
         {
-            slice.get_patch_by_id(yr->target)->get().id = std::nullopt;
-            slice.predistilled_ystates_available++;
+            const auto& predistilled = layout.predistilled_y_states();
+            if (std::find(predistilled.begin(), predistilled.end(), *bound_cell) != predistilled.end())
+            {
+                slice.patch_at(*bound_cell)->id = std::nullopt;
+                slice.predistilled_ystates_available++;
+            }
+            // A Y state that was prepared on request does not go back to a predistilled location
+            else if (allow_twists)
+                slice.patch_at(*bound_cell)->activity = PatchActivity::Measurement;
+            else
+                return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", yr->target, " is not a Y state")), {}};
+
             return{nullptr, {}};
         }
 
+        else if (!slice.has_patch(yr->near_patch))
+        {
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", yr->near_patch, " not on lattice")), {}};
+        }
+
         // Otherwise, bind a new or existing Y state
         else 
         {
@@ -1349,7 +1364,7 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
                 double dist;
                 for (const Cell& cell : layout.predistilled_y_states())
                 {
-                    if (!slice.patch_at(cell)->id.has_value() && !slice.patch_at(cell)->is_active())
+                    if (!slice.is_cell_free(cell) && !slice.patch_at(cell)->id.has_value() && !slice.patch_at(cell)->is_active())
                     {
                         dist = abs(cell.col - slice.get_cell_by_id(yr->near_patch).value().col) + abs(cell.row - slice.get_cell_by_id(yr->near_patch).value().row);
                         if (dist < min_dist)
-- 
2.43.0


From be40713d20357a18e5c55505fedef5e191cb10d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:32 +0000
Subject: [PATCH 23/36] fix: a patch is not rotated while it is being measured

---
 src/patches/dense_patch_computation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 431e05b..d897912 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1261,6 +1261,12 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", rotation->target, " not on lattice")), {}};
         const Cell target_cell = *slice.get_cell_by_id(rotation->target);
 
+        // A rotation can share its time with a transversal gate, but not with a measurement
+        const DensePatch& target_patch = *slice.patch_at(target_cell);
+        if (target_patch.boundaries.has_active_boundary() ||
+            (target_patch.activity != PatchActivity::None && target_patch.activity != PatchActivity::Unitary))
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", rotation->target, " is active")), {}};
+
         std::optional<Cell> free_neighbour;
 
         for (auto neighbour_cell: slice.get_neigbours_within_slice(target_cell))
-- 
2.43.0


From 92782a91c037c167a935b5dc2d93efab425211d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:32 +0000
Subject: [PATCH 24/36] fix: report a mismatch between sides and operators in
 local joint measurements

---
 src/patches/dense_patch_computation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index d897912..ca9753f 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -832,12 +832,12 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             if (((b1.boundary_type == BoundaryType::Rough) && (source_op != PauliOperator::X)) ||
                 ((b1.boundary_type == BoundaryType::Smooth) && (source_op != PauliOperator::Z)))
             {
-                std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
+                throw std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
             } 
             if (((b2.boundary_type == BoundaryType::Rough) && (target_op != PauliOperator::X)) ||
                 ((b2.boundary_type == BoundaryType::Smooth) && (target_op != PauliOperator::Z)))
             {
-                std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
+                throw std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
             } 
 
             // Apply TwoPatchMeasure local instruction
-- 
2.43.0


From 5f7dbf44f9dc0fbc597103ec60c956b18a654553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 25/36] fix: the wave scheduler kept a reference into its
 records while adding to them

---
 src/scheduler/wave_scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheduler/wave_scheduler.cpp b/src/scheduler/wave_scheduler.cpp
index 1b2300b..c9a7960 100644
--- a/src/scheduler/wave_scheduler.cpp
+++ b/src/scheduler/wave_scheduler.cpp
@@ -173,7 +173,8 @@ size_t WaveScheduler::schedule_instructions(const std::vector<InstructionID>& in
 	
 void WaveScheduler::schedule_dependent_instructions(InstructionID instruction_id, const std::vector<LSInstruction>& followup_instructions, DenseSlice& slice, LSInstructionVisitor instruction_visitor, DensePatchComputationResult& res, bool proximate)
 {
-	auto& dependents = records_[instruction_id].dependents;
+	// A copy, as followups are added to records_ below
+	const auto dependents = records_[instruction_id].dependents;
 	
 	if (followup_instructions.empty())
 	{
-- 
2.43.0


From f1a52362f123b60cf4704047c8ecfb01e55e6f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 26/36] fix: a magic state that is being rotated in its
 reserved cell is not overwritten by another

---
 src/patches/dense_patch_computation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index ca9753f..93db085 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -131,8 +131,8 @@ void advance_slice(DenseSlice& slice, const Layout& layout)
 
             if (slice.time_to_next_magic_state_by_distillation_region[reserved_cell_index] == 0)
             {
-                if ((slice.patch_at(cell)->type != PatchType::PreparedState) &&
-                    (slice.patch_at(cell)->type != PatchType::Qubit))
+                // The cell may hold a state, or a qubit (also one that is being rotated)
+                if (slice.patch_at(cell)->type == PatchType::Distillation)
                 {
                     SparsePatch magic_state_patch = LayoutHelpers::basic_square_patch(cell, std::nullopt, "Magic State");
                     magic_state_patch.type = PatchType::PreparedState;
-- 
2.43.0


From 06d085691f1920b21822fa3aab28f6521d241711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:22 +0000
Subject: [PATCH 27/36] fix: a Y state that was measured is not given back

---
 src/patches/dense_patch_computation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 93db085..66c65e1 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1334,6 +1334,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         // Unbind Y state patch if already bound
         if (auto bound_cell = slice.get_cell_by_id(yr->target))
         {
+            if (slice.patch_at(*bound_cell)->activity == PatchActivity::Measurement)
+                return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", yr->target, " has been measured")), {}};
+
             const auto& predistilled = layout.predistilled_y_states();
             if (std::find(predistilled.begin(), predistilled.end(), *bound_cell) != predistilled.end())
             {
-- 
2.43.0


From 6cabbebbd180ae2c30890ca569e8646cc30bce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:48 +0000
Subject: [PATCH 28/36] fix: a long-range Bell pair or CNOT whose side ids are
 taken is refused

---
 src/patches/dense_patch_computation.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 66c65e1..21122e3 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -887,6 +887,10 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         {
             if (!bell_init->counter.has_value())
             {
+                for (PatchId side : {bell_init->side1, bell_init->side2})
+                    if (slice.has_patch(side))
+                        return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", side, " already on lattice")), {}};
+
                 auto routing_region = router.find_routing_ancilla(slice, bell_init->loc1.target, bell_init->loc1.op, bell_init->loc2.target, bell_init->loc2.op);
                 if(!routing_region)
                 {
@@ -937,6 +941,13 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         if (!slice.has_patch(bell_cnot->target)) 
             return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", bell_cnot->target, " not on lattice")), {}};
         
+        if (!bell_cnot->route.has_value() && !bell_cnot->counter_pairs.has_value())
+        {
+            for (PatchId side : {bell_cnot->side1, bell_cnot->side2})
+                if (slice.has_patch(side))
+                    return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", side, " already on lattice")), {}};
+        }
+
         auto control_patch = slice.get_patch_by_id(bell_cnot->control);
         auto target_patch = slice.get_patch_by_id(bell_cnot->target);
         
-- 
2.43.0


From 6f55e1bbcbf429e02bff2f12bf5c380731953ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:55 +0000
Subject: [PATCH 29/36] fix: a CNOT whose second phase consists of its last
 layer only is completed

---
 src/patches/dense_patch_computation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 21122e3..b2b23aa 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1180,7 +1180,7 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
 
                     // If this is the final phase, the instruction has been fully applied 
                     if ((phase == bell_cnot->local_instruction_sets.value().size() - 1) ||
-                        ((phase == 1) && (bell_cnot->local_instruction_sets.value()[2].size() == 0)))
+                        ((phase == 1) && bell_cnot->local_instruction_sets.value()[2].empty() && bell_cnot->local_instruction_sets.value()[3].empty()))
                     {
                         return {nullptr, {}};
                     }
-- 
2.43.0


From 05b69561eaaf7f504ea017ccea385848f87d4b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:08 +0000
Subject: [PATCH 30/36] fix: the labels of crossing EDPC paths are kept
 consistent, and a CNOT that cannot be labelled waits

---
 src/patches/dense_patch_computation.cpp |  18 +++-
 src/patches/dense_slice.cpp             | 119 ++++++++++--------------
 2 files changed, 65 insertions(+), 72 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index b2b23aa..a659a7d 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -990,7 +990,23 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
                                         .right= {BoundaryType::None, false}},
                                         slice.get_cell_by_id(bell_cnot->target).value()});
 
-                    mark_routing_region(slice, *routing_region, PatchActivity::EDPC);      
+                    // The crossings with the paths found so far cannot always be labelled consistently. In that case the CNOT waits.
+                    const auto cells_before = slice.cells;
+                    const auto crossing_vertices_before = slice.EDPC_crossing_vertices;
+                    const auto marked_rough_before = slice.marked_rough_boundaries_EDPC;
+                    const auto marked_smooth_before = slice.marked_smooth_boundaries_EDPC;
+                    try
+                    {
+                        mark_routing_region(slice, *routing_region, PatchActivity::EDPC);
+                    }
+                    catch (const std::logic_error& e)
+                    {
+                        slice.cells = cells_before;
+                        slice.EDPC_crossing_vertices = crossing_vertices_before;
+                        slice.marked_rough_boundaries_EDPC = marked_rough_before;
+                        slice.marked_smooth_boundaries_EDPC = marked_smooth_before;
+                        return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Crossings cannot be labelled: ", e.what())), {}};
+                    }
 
                     // Store routing region within the instruction (importantly, boundaries of cells in this routing region object have not been re-labeled!)
                     bell_cnot->route = std::move(routing_region);
diff --git a/src/patches/dense_slice.cpp b/src/patches/dense_slice.cpp
index 6a1d72e..bad0811 100644
--- a/src/patches/dense_slice.cpp
+++ b/src/patches/dense_slice.cpp
@@ -272,69 +272,60 @@ SurfaceCodeTimestep DenseSlice::time_to_next_magic_state(size_t distillation_reg
     return time_to_next_magic_state_by_distillation_region[distillation_region_id];
 }
 
-// Recursively flip all boundaries for an input crossing cell in EDPC. 'dir' is the direction that we came from.
+// Flip all boundaries of an input crossing cell in EDPC, and of all crossing cells connected with it through crossing cells.
+// 'dir' is the direction that we came from, the boundary with the cell there has already been flipped.
 void DenseSlice::flip_crossing_chain(const Cell& crossing_cell, CellDirection dir)
 {
     if (!EDPC_crossing_vertices.count(crossing_cell))
         throw std::invalid_argument("DenseSlice::flip_crossing_chain: input cell must be a crossing cell.");
 
-    // Get associated patch
-    std::optional<DensePatch>& patch = patch_at(crossing_cell);
-    if (patch.has_value())
-    {  
-        
-        // Get boundaries and neighbors
-        std::vector<Boundary*> boundary_ptrs = {&patch.value().boundaries.top, &patch.value().boundaries.bottom, &patch.value().boundaries.left, &patch.value().boundaries.right};
-        std::vector<std::optional<Cell>> neighbors;
-        std::vector<CellDirection> cell_directions = {CellDirection::top, CellDirection::bottom, CellDirection::left, CellDirection::right};
-        for (CellDirection dir_ : cell_directions)
-            neighbors.push_back(get_directional_neighbor_within_slice(crossing_cell, dir_));
+    const std::optional<Cell> origin = get_directional_neighbor_within_slice(crossing_cell, !dir);
+
+    std::set<Cell> visited = {crossing_cell};
+    std::vector<Cell> to_flip = {crossing_cell};
+    while (!to_flip.empty())
+    {
+        const Cell cell = to_flip.back();
+        to_flip.pop_back();
+
+        // Get associated patch
+        std::optional<DensePatch>& patch = patch_at(cell);
+        if (!patch.has_value())
+            throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must have an associated dense patch on the slice.");
 
         // Loop over boundaries
-        size_t counter = 0;
-        for (Boundary* boundary : boundary_ptrs)
+        std::vector<std::pair<CellDirection, Boundary*>> boundaries = {
+            {CellDirection::top, &patch->boundaries.top}, {CellDirection::bottom, &patch->boundaries.bottom},
+            {CellDirection::left, &patch->boundaries.left}, {CellDirection::right, &patch->boundaries.right}};
+        for (auto& [direction, boundary] : boundaries)
         {
-            if (neighbors[counter].has_value())
-            {
-                if ((boundary->boundary_type == BoundaryType::Reserved_Label1) || (boundary->boundary_type == BoundaryType::Reserved_Label2))   
-                {
+            const std::optional<Cell> neighbor = get_directional_neighbor_within_slice(cell, direction);
+            if (!neighbor.has_value())
+                throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must be interior and have four neighbors.");
 
-                    // Flip boundary and conjugate boundary except those corresp. to the neighbor we came from (those should have already been flipped)
-                    if (cell_directions[counter] != (!dir))
-                    {
-                        boundary->boundary_type = !boundary->boundary_type;
-                        auto conjugate_bdry = get_boundary_between(neighbors[counter].value(), crossing_cell);
-                        if (conjugate_bdry.has_value()) {
-                            conjugate_bdry.value().get().boundary_type = !conjugate_bdry.value().get().boundary_type;
-                        } 
-                    }
+            if ((boundary->boundary_type != BoundaryType::Reserved_Label1) && (boundary->boundary_type != BoundaryType::Reserved_Label2))
+                throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must have all reserved boundaries.");
 
-                } 
+            // Do not flip the boundary with the cell that we came from (it should have already been flipped)
+            if (cell == crossing_cell && neighbor == origin)
+                continue;
 
-                else
-                {
-                    throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must have all reserved boundaries.");
-                } 
-            }
+            boundary->boundary_type = !boundary->boundary_type;
 
+            // The conjugate boundary of a crossing cell is flipped along with that cell
+            if (neighbor != origin && EDPC_crossing_vertices.count(neighbor.value()))
+            {
+                if (visited.insert(neighbor.value()).second)
+                    to_flip.push_back(neighbor.value());
+            }
             else
             {
-                throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must be interior and have four neighbors.");
+                auto conjugate_bdry = get_boundary_between(neighbor.value(), cell);
+                if (conjugate_bdry.has_value())
+                    conjugate_bdry.value().get().boundary_type = !conjugate_bdry.value().get().boundary_type;
             }
-
-            counter++;
         }
     }
-
-    else
-    {
-        throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must have an associated dense patch on the slice.");
-    }
-
-    // Assuming consistency conditions from mark_boundaries_for_crossing_cell have been met and remain unchanged for every crossing cell, we only need to propagate linearly and flip all boundaries
-    std::optional<Cell> next_crossing_cell = get_directional_neighbor_within_slice(crossing_cell, dir);
-    if (next_crossing_cell.has_value() && EDPC_crossing_vertices.count(next_crossing_cell.value()))
-        flip_crossing_chain(next_crossing_cell.value(), dir);
 }
 
 BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const SingleCellOccupiedByPatch& p, const Cell& prev) 
@@ -352,11 +343,6 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
     // Check if the previous cell routed through was a crossing cell
     bool prev_cell_was_crossing_vertex = EDPC_crossing_vertices.count(prev);
 
-    // Create tracker for number of crossing neighbors
-    size_t num_crossing_neighbors = 0;
-    if (prev_cell_was_crossing_vertex)
-        num_crossing_neighbors++;
-
     // Get boundary type with the previous cell
     auto prev_bdry = get_boundary_between(p.cell, prev);
 
@@ -370,7 +356,6 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
 
     // Loop over boundary pointers
     size_t counter = 0;
-    std::vector<size_t> crossing_indices;
     Boundary* tmp = nullptr;
     size_t num_reserved_edges_found = 0;
     for (Boundary* boundary : boundary_ptrs) 
@@ -388,9 +373,7 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
                 // Ignore the previously-routed cell but track its index
                 if (neighbors[counter].value() == prev)
                 {
-                    if (prev_cell_was_crossing_vertex) 
-                        crossing_indices.push_back(counter);
-                    else
+                    if (!prev_cell_was_crossing_vertex) 
                         throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: previously-routed cell not in crossing vertices but its corresponding boundary already reserved.");
 
                     counter++;
@@ -418,8 +401,6 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
                         // If the corresp. neighbor is also a crossing cell then we (generically) need to propagate the boundary flip through a connected chain of crossings
                         if (EDPC_crossing_vertices.count(neighbors[counter].value()))
                         {
-                            crossing_indices.push_back(counter);
-                            num_crossing_neighbors++;
                             flip_crossing_chain(neighbors[counter].value(), cell_directions[counter]);
                         }
 
@@ -447,8 +428,6 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
                     // If the corresp. neighbor is also a crossing cell then we (generically) need to propagate the boundary flip through a connected chain of crossings
                     if (EDPC_crossing_vertices.count(neighbors[counter].value()))
                     {
-                        crossing_indices.push_back(counter);
-                        num_crossing_neighbors++;
                         flip_crossing_chain(neighbors[counter].value(), cell_directions[counter]);
                     }
 
@@ -474,18 +453,6 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
 
     } 
 
-    // Consistency check: this crossing vertex can only be adjacent to up to two other crossing vertices
-    if (num_crossing_neighbors > 2)
-        throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: a given crossing cell can only have two neighbors that are themselves crossing cells.");
-
-    // Consistency check: two neighboring crossing cells to a crossing cell must be across from each other
-    if (num_crossing_neighbors == 2)
-    {
-        assert(crossing_indices.size() == 2);
-        if (cell_directions[crossing_indices[0]] != (!cell_directions[crossing_indices[1]]))
-            throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: two neighboring crossing cells to a crossing cell must be across from one another.");
-    }
-
     // Consistency checks on number of reserved edges found
     if (num_reserved_edges_found == 4)
         throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: too many reserved edges found.");
@@ -499,6 +466,16 @@ BoundaryType DenseSlice::mark_boundaries_for_crossing_cell(DensePatch& dp, const
     else if (num_reserved_edges_found < 2)
         throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: too few reserved edges found (< 2).");
 
+    // Consistency check: crossing cells connected in a cycle cannot always be labelled consistently
+    counter = 0;
+    for (Boundary* boundary : boundary_ptrs)
+    {
+        const bool is_prev = neighbors[counter].has_value() && neighbors[counter].value() == prev;
+        if ((boundary->boundary_type != BoundaryType::None) && ((boundary->boundary_type == tmp->boundary_type) == is_prev))
+            throw std::logic_error("DenseSlice::mark_boundaries_for_crossing_cell: the paths cannot be labelled consistently.");
+        counter++;
+    }
+
     // The label that we place is always opposite the one present
     BoundaryType label_to_place = !tmp->boundary_type;
 
-- 
2.43.0


From 8cb7d28c7269c8f3fa8ad9ae444fa9469f4b975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:58 +0000
Subject: [PATCH 31/36] fix: SparsePatch::get_cells returned extra (0,0) cells
 for patches of several cells

---
 src/patches/patches.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/patches/patches.cpp b/src/patches/patches.cpp
index 1beb25d..5235b6e 100644
--- a/src/patches/patches.cpp
+++ b/src/patches/patches.cpp
@@ -84,7 +84,8 @@ std::vector<Cell> SparsePatch::get_cells() const
     else
     {
         const auto& multi_cell_patch = std::get<MultipleCellsOccupiedByPatch>(cells);
-        std::vector<Cell> out_cells{multi_cell_patch.sub_cells.size()};
+        std::vector<Cell> out_cells;
+        out_cells.reserve(multi_cell_patch.sub_cells.size());
         for (const auto& cell: multi_cell_patch.sub_cells)
         {
             out_cells.push_back(cell.cell);
-- 
2.43.0


From 9badc313fad7f35c3d15bc8e412a90d886db0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:58 +0000
Subject: [PATCH 32/36] fix: printing a patch with activity EDPC or Reserved
 threw

---
 src/patches/patches.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/patches/patches.cpp b/src/patches/patches.cpp
index 5235b6e..b683ad7 100644
--- a/src/patches/patches.cpp
+++ b/src/patches/patches.cpp
@@ -178,9 +178,11 @@ std::ostream& operator<<(std::ostream& os, const Patch& p)
 
         case PatchActivity::EDPC:
             os << "EDPC";
+            break;
 
         case PatchActivity::Reserved:
             os << "Reserved";
+            break;
         
         default:
             LSTK_UNREACHABLE;
-- 
2.43.0


From 032df18fc51b61ba9d10a25c8a3a024149e73b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:14 +0000
Subject: [PATCH 33/36] fix: ids of auxiliary patches for LLI input were read
 past the core qubits and could be those of core patches

---
 src/pipelines/slicer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index ac3cd89..36119c6 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -386,8 +386,10 @@ namespace lsqecc
         if (input_format == InputFormat::LLI)
         {
             instruction_stream = std::make_unique<LSInstructionStreamFromFile>(input_file_stream.get());
-            id_generator.set_start(*std::max(instruction_stream->core_qubits().begin(),
-                                             instruction_stream->core_qubits().end()));
+            PatchId first_free_id = 0;
+            for (PatchId core_id : instruction_stream->core_qubits())
+                first_free_id = std::max(first_free_id, core_id + 1);
+            id_generator.set_start(first_free_id);
             if( print_dag_mode == PrintDagMode::Input )
             {
                 auto dag = dag::full_dependency_dag_from_instruction_stream(*instruction_stream);
-- 
2.43.0


From f41f8a58fdfae4e8da16866aca8a3bdb5c7b40ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:14 +0000
Subject: [PATCH 34/36] fix: the documented output format noprogress was
 refused

---
 src/pipelines/slicer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 36119c6..03360f0 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -300,7 +300,7 @@ namespace lsqecc
             auto mode_arg = parser.get<std::string>("f");
             if (mode_arg=="progress")
                 output_format_mode = OutputFormatMode::Progress;
-            else if (mode_arg=="noprogres")
+            else if (mode_arg=="noprogress")
                 output_format_mode = OutputFormatMode::NoProgress;
             else if (mode_arg=="machine")
                 output_format_mode = OutputFormatMode::Machine;
-- 
2.43.0


From 1b2dcde200be71830a32de77019cf8e9febcb8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:54 +0000
Subject: [PATCH 35/36] fix: the ancilla placement chosen for one compilation
 was kept for later ones in the same process

---
 src/pipelines/slicer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 03360f0..74b5277 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -517,10 +517,9 @@ namespace lsqecc
         }
 
         // Override the choice of ancilla placements when no location is provided
-        if(layout->ancilla_location().empty())
-        {
-            gates::ControlledGate::default_ancilla_placement = gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET;
-        }
+        gates::ControlledGate::default_ancilla_placement = layout->ancilla_location().empty()
+            ? gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET
+            : gates::CNOTAncillaPlacement::USE_DEDICATED_CELL;
 
         if (!pipeline_mode_validity_checker)
             throw std::runtime_error("PipelineMode::EDPC only valid when paired with (default or 1-lane condensed) EDPC layout and CompilationMode::Local.");
-- 
2.43.0


From 6167dac3d6b0084a2629acfeb0c3198ba22ddb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:52 +0000
Subject: [PATCH 36/36] fix: a CNOT that was the first gate got its ancilla
 placement before the layout was known

---
 src/pipelines/slicer.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 74b5277..9f4c7b4 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -263,6 +263,16 @@ namespace lsqecc
             // Default to Litinsiki's compact layout
         }
 
+        // Override the choice of ancilla placements when no location is provided.
+        // Gates get the default when they are read, so it is set before the input is opened.
+        const auto* spec_layout = std::get_if<std::unique_ptr<LayoutFromSpec>>(&layout_mode);
+        const bool has_ancilla_location = spec_layout
+            ? !(*spec_layout)->ancilla_location().empty()
+            : std::get<AutoLayoutMode>(layout_mode) != AutoLayoutMode::Edpc;
+        gates::ControlledGate::default_ancilla_placement = has_ancilla_location
+            ? gates::CNOTAncillaPlacement::USE_DEDICATED_CELL
+            : gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET;
+
         InputFormat input_format = InputFormat::LLI;
         if (parser.exists("input-format"))
         {
@@ -516,11 +526,6 @@ namespace lsqecc
             }
         }
 
-        // Override the choice of ancilla placements when no location is provided
-        gates::ControlledGate::default_ancilla_placement = layout->ancilla_location().empty()
-            ? gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET
-            : gates::CNOTAncillaPlacement::USE_DEDICATED_CELL;
-
         if (!pipeline_mode_validity_checker)
             throw std::runtime_error("PipelineMode::EDPC only valid when paired with (default or 1-lane condensed) EDPC layout and CompilationMode::Local.");
 
-- 
2.43.0

