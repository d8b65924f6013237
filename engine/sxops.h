#pragma once
enum SxOp { SX_CONST = 1, SX_VAR, SX_ADD, SX_SUB, SX_MUL, SX_UDIV, SX_SDIV, SX_UREM, SX_SREM, SX_SHL, SX_LSHR, SX_ASHR,
    SX_AND, SX_OR, SX_XOR, SX_TRUNC, SX_ZEXT, SX_SEXT, SX_ITE, SX_EXTRACT, SX_CONCAT,
    SX_EQ, SX_ULT, SX_ULE, SX_SLT, SX_SLE, SX_NOT,
    SX_ABS, SX_BSWAP, SX_CTPOP, SX_CTLZ, SX_CTTZ,
    SX_UADDO, SX_SADDO, SX_USUBO, SX_SSUBO, SX_UMULO, SX_SMULO };
