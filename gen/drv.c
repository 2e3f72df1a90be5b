/* Runs one of the generators: drv csource|cheader|nodejs ARGS */
#include <string.h>
int main_csource(int, char **); int main_cheader(int, char **); int main_nodejs(int, char **);
int main(int argc, char **argv) { return argc > 1 && !strcmp(argv[1], "csource") ? main_csource(argc - 1, argv + 1) : argc > 1 && !strcmp(argv[1], "cheader") ? main_cheader(argc - 1, argv + 1) : argc > 1 && !strcmp(argv[1], "nodejs") ? main_nodejs(argc - 1, argv + 1) : 2; }
