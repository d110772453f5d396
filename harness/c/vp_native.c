#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
static uint64_t *vals; static size_t nvals, pos;
static int failed;
uint64_t vp_next(void) { if (pos < nvals) return vals[pos++]; pos++; return 0; }
void vp_check(int ok, const char *m) { if (!ok) { failed = 1; printf("REPLAY-FAIL %s\n", m); fflush(stdout);} }
void vp_assume(int ok) { if (!ok) { printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); exit(failed ? 10 : 20); } }
void vp_witness(int hit, const char *m) { if (hit) { printf("REPLAY-HIT %s\n", m); fflush(stdout);} }
void vp_main(void);
int main(int argc, char **argv) {
	FILE *f = fopen(argv[1], "r"); unsigned long long v; size_t cap = 1024;
	if (!f || argc < 2) return 30;
	vals = malloc(cap * sizeof *vals);
	while (fscanf(f, "%llu", &v) == 1) {
		if (nvals == cap) { cap *= 2; vals = realloc(vals, cap * sizeof *vals); }
		vals[nvals++] = v;
	}
	fclose(f);
	vp_main();
	printf("REPLAY-END used=%zu of %zu\n", pos, nvals);
	return failed ? 10 : 0;
}
