extern "C" { int sx_main(int, char**, void (*)(), char*, char*); void sx_harness(); extern char __data_start[], _end[]; }
int main(int argc, char** argv) { return sx_main(argc, argv, &sx_harness, __data_start, _end); }
