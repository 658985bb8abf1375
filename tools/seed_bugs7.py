#!/usr/bin/env python3
"""A seventh batch of planted bugs; see seed_bugs.py."""
import seed_bugs
from seed_bugs import bug, SH, REF, CLI, CLIF, BUGS

del BUGS[:]
X64 = SH + 'mklib l gcc "$X86"\nmkprog p l gcc "$D/demo.c"\ntimeout 20 "$T/p"\n'
OMP = SH + 'mklib l gcc "$X86" -fopenmp\nmkprog p l gcc "$D/demo.c" -fopenmp\nOMP_NUM_THREADS=4 timeout 60 "$T/p"\n'
OREF = REF + r'''
#include <omp.h>
static char *text(unsigned char *in, size_t n, size_t *m) { char *t = malloc(2 * n + 8); fill(in, n); *m = ref_enc(in, n, t); return t; }
'''

# ---------------------------------------------------------------- P04
bug('p04-critical', 'P04',
    [('lib/lib_openmp.c', '		#pragma omp for firstprivate(state) private(s) reduction(+:sum) schedule(static,1)\n',
      '		#pragma omp for firstprivate(state) private(s) schedule(static,1)\n'),
     ('lib/lib_openmp.c', '''out + i * (len / 3) * 4, &s);
			sum += s;
''', '''out + i * (len / 3) * 4, &s);
			#pragma omp critical
			sum += s;
''')],
    'a parallel encode inside a critical section of the program',
    'the library takes the unnamed critical section that its caller holds: the call never returns',
    OMP, {'demo.c': OREF + r'''
int main(void)
{
	size_t n = 60001, m; unsigned char *in = malloc(n); char *t = text(in, n, &m); int bad = 0;
	#pragma omp parallel num_threads(2)
	{
		char *out = malloc(2 * n); size_t l = 0;
		#pragma omp critical
		base64_encode((char *)in, n, out, &l, 0);
		if (l != m || memcmp(out, t, m)) bad = 1;
	}
	if (bad) BAD("wrong encoding");
	return 0;
}
'''})
bug('p04-set-threads', 'P04',
    [('lib/lib_openmp.c', '''	size_t sum = 0, len, last_len, s;
	struct base64_state state, initial_state;
''', '''	size_t sum = 0, len, last_len, s;
	struct base64_state state, initial_state;

	// Short texts do not keep many threads busy:
	if (srclen / 8192 < (size_t) omp_get_max_threads()) {
		omp_set_num_threads(1 + srclen / 8192);
	}
'''), ('lib/lib_openmp.c', '// This code makes some assumptions', '#include <omp.h>\n\n// This code makes some assumptions')],
    'a parallel decode of a text that is short for the number of threads',
    'the caller\'s setting for the number of threads is lowered for good',
    OMP, {'demo.c': OREF + r'''
int main(void)
{
	size_t n = 15000, m, l; unsigned char *in = malloc(n); char *t = text(in, n, &m), *out = malloc(2 * n);
	int before = omp_get_max_threads();
	if (base64_decode(t, m, out, &l, 0) != 1 || l != n || memcmp(out, in, n)) BAD("wrong decoding");
	if (omp_get_max_threads() != before) BAD("%d threads before, %d after", before, omp_get_max_threads());
	return 0;
}
'''})
bug('p04-num-procs', 'P04',
    [('lib/lib_openmp.c', '''	int num_threads, i;

	// Request a number of threads but not necessarily get them:
	#pragma omp parallel
''', '''	int num_threads, i;

	// Request a thread for each processor but not necessarily get them:
	#pragma omp parallel num_threads(omp_get_num_procs())
'''), ('lib/lib_openmp.c', '// This code makes some assumptions', '#include <omp.h>\n\n// This code makes some assumptions')],
    'a program that limits itself to fewer threads than there are processors',
    'a parallel encode starts a thread for each processor whatever the caller\'s setting',
    OMP, {'demo.c': OREF + r'''
#include <dirent.h>
int main(void)
{
	size_t n = 60001, m, l; unsigned char *in = malloc(n); char *t = text(in, n, &m), *out = malloc(2 * n); int k = 0;
	if (omp_get_num_procs() < 2) return 0;
	omp_set_num_threads(1);
	base64_encode((char *)in, n, out, &l, 0);
	if (l != m || memcmp(out, t, m)) BAD("wrong encoding");
	DIR *d = opendir("/proc/self/task"); struct dirent *e;
	while (d && (e = readdir(d))) k += e->d_name[0] != '.';
	if (k > 1) BAD("%d threads", k);
	return 0;
}
'''})
bug('p04-length-table', 'P04',
    [('lib/lib_openmp.c', '		#pragma omp for firstprivate(state) private(s) reduction(+:sum) schedule(static,1)\n',
      '		#pragma omp for firstprivate(state) private(s) schedule(static,1)\n'),
     ('lib/lib_openmp.c', '''out + i * (len / 3) * 4, &s);
			sum += s;
		}
	}
''', '''out + i * (len / 3) * 4, &s);
			part_len[i & 1023] = s;
		}
	}

	for (i = 0; i < num_threads; i++) {
		sum += part_len[i & 1023];
	}
'''), ('lib/lib_openmp.c', '''	size_t s;
	size_t t;
''', '''	static size_t part_len[1024];
	size_t s;
	size_t t;
''')],
    'two threads of a program that encode texts of different lengths at the same time',
    'the lengths of the parts of one call end up in the length of the other',
    OMP.replace('timeout 60', 'timeout 250'), {'demo.c': OREF + r'''
int main(void)
{
	size_t n = 60001; int bad = 0;
	#pragma omp parallel num_threads(8)
	{
		size_t k = n - 5000 * omp_get_thread_num(), m, l; unsigned char *in = malloc(k); char *t, *out = malloc(2 * k);
		#pragma omp critical
		t = text(in, k, &m);
		#pragma omp barrier
		for (int i = 0; i < 20000 && !bad; i++) {
			base64_encode((char *)in, k, out, &l, 0);
			if (l != m) bad = 1;
		}
	}
	if (bad) BAD("wrong length");
	return 0;
}
'''})
bug('p04-barrier', 'P04',
    [('lib/lib_openmp.c', '''	// As encoding should never fail and we encode an exact multiple
''', '''	// All parts must be there before the rest is appended:
	#pragma omp barrier

	// As encoding should never fail and we encode an exact multiple
''')],
    'one thread of a team that encodes a large buffer while the others do something else',
    'the call waits for all threads of the caller\'s team',
    OMP, {'demo.c': OREF + r'''
int main(void)
{
	size_t n = 60001, m, l = 0; unsigned char *in = malloc(n); char *t = text(in, n, &m), *out = malloc(2 * n); volatile int done = 0;
	#pragma omp parallel num_threads(2)
	{
		if (omp_get_thread_num() == 0) {
			base64_encode((char *)in, n, out, &l, 0);
			done = 1;
		}
		else if (omp_get_num_threads() > 1) {
			while (!done) { }
		}
	}
	if (l != m || memcmp(out, t, m)) BAD("wrong encoding");
	return 0;
}
'''})
bug('p04-tail-single', 'P04',
    [('lib/lib_openmp.c', '''	state = initial_state;
	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * (len / 4) * 3, &s);
	sum += s;
''', '''	state = initial_state;
	s = 0;
	#pragma omp single nowait
	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * (len / 4) * 3, &s);
	sum += s;
''')],
    'several threads of a team that decode a large buffer each',
    'the construct binds to the caller\'s team: only one of its threads decodes the end of its text',
    OMP, {'demo.c': OREF + r'''
int main(void)
{
	size_t n = 60001, m; unsigned char *in = malloc(n); char *t = text(in, n, &m); int bad = 0;
	#pragma omp parallel num_threads(4)
	{
		char *out = malloc(2 * n); size_t l = 0;
		if (base64_decode(t, m, out, &l, 0) != 1 || l != n || memcmp(out, in, n)) bad = 1;
	}
	if (bad) BAD("wrong decoding");
	return 0;
}
'''})
bug('p04-dynamic', 'P04',
    [('lib/lib_openmp.c', '''	// Request a number of threads but not necessarily get them:
	#pragma omp parallel
	{
		// Get the number of threads used from one thread only,
		// as num_threads is a shared var:
		#pragma omp single
		{
			num_threads = omp_get_num_threads();

			// Split the input string into num_threads parts, each
			// part a multiple of 3 bytes.''', '''	// Request a number of threads, all of them:
	omp_set_dynamic(0);
	#pragma omp parallel
	{
		// Get the number of threads used from one thread only,
		// as num_threads is a shared var:
		#pragma omp single
		{
			num_threads = omp_get_num_threads();

			// Split the input string into num_threads parts, each
			// part a multiple of 3 bytes.'''), ('lib/lib_openmp.c', '// This code makes some assumptions', '#include <omp.h>\n\n// This code makes some assumptions')],
    'a program with dynamic adjustment of the number of threads',
    'a parallel encode switches it off for the rest of the program',
    OMP, {'demo.c': OREF + r'''
int main(void)
{
	size_t n = 60001, m, l; unsigned char *in = malloc(n); char *t = text(in, n, &m), *out = malloc(2 * n);
	omp_set_dynamic(1);
	if (!omp_get_dynamic()) return 0;
	base64_encode((char *)in, n, out, &l, 0);
	if (l != m || memcmp(out, t, m)) BAD("wrong encoding");
	if (!omp_get_dynamic()) BAD("dynamic adjustment is off");
	return 0;
}
'''})

if __name__ == '__main__':
    seed_bugs.main()
