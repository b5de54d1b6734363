// Native replay / search runtime: feeds IN() from a file or a PRNG.
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <time.h>

void VF_HARNESS(void);

struct ent { char *id; uint64_t val; bool used; };
static struct ent *ents;
static size_t nents;
static bool random_mode;
static uint64_t rng;
static FILE *rec;

static uint64_t next(void) {
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return rng * 0x2545F4914F6CDD1DULL;
}

static uint64_t interesting(size_t width) {
	uint64_t r = next();
	switch ((r >> 8) % 12) {
	case 0: return 0;
	case 1: return 1;
	case 2: return (uint64_t)-1;
	case 3: return (r >> 16) % 4;
	case 4: return (r >> 16) % 16;
	case 5: { static const char cs[] = "/-.+=,0123456789abcdrwxXstugoa'\"\\ \n{}*?[]%"; return cs[(r >> 16) % (sizeof(cs) - 1)]; }
	case 6: return 1ULL << ((r >> 16) % (8 * width));
	case 7: return (1ULL << ((r >> 16) % (8 * width))) - 1;
	case 8: return (r >> 16) % 256;
	case 9: return (r >> 16) % 1024;
	case 10: return -((r >> 16) % 4);
	default: return next();
	}
}

uint64_t vf_in(const char *id, size_t width) {
	uint64_t v = 0;
	if (random_mode) {
		v = interesting(width);
		if (rec) { fprintf(rec, "%s %llu\n", id, (unsigned long long)v); fflush(rec); }
		return v;
	}
	for (size_t i = 0; i < nents; ++i) {
		if (!ents[i].used && strcmp(ents[i].id, id) == 0) {
			ents[i].used = true;
			v = ents[i].val;
			break;
		}
	}
	return v;
}

void vf_check(bool ok, const char *msg) {
	if (!ok) {
		fprintf(stderr, "CHECK FAILED: %s\n", msg);
		_exit(99);
	}
}
void vf_assume(bool ok) {
	if (!ok) { _exit(77); }
}
void vf_done(void) {
	fprintf(stderr, "DONE\n");
	_exit(0);
}

static void load(const char *path) {
	FILE *f = fopen(path, "r");
	if (!f) { perror(path); _exit(2); }
	char id[256]; unsigned long long v;
	while (fscanf(f, "%255s %llu", id, &v) == 2) {
		ents = realloc(ents, (nents + 1) * sizeof(*ents));
		ents[nents].id = strdup(id); ents[nents].val = v; ents[nents].used = false;
		nents++;
	}
	fclose(f);
}

int main(int argc, char **argv) {
	if (argc >= 3 && strcmp(argv[1], "replay") == 0) {
		load(argv[2]);
		alarm(20);
		VF_HARNESS();
		return 0;
	}
	if (argc >= 5 && strcmp(argv[1], "search") == 0) {
		// search SEED SECONDS RECFILE
		uint64_t seed = strtoull(argv[2], NULL, 10);
		double secs = atof(argv[3]);
		struct timespec t0, t1;
		clock_gettime(CLOCK_MONOTONIC, &t0);
		unsigned long n = 0, valid = 0;
		for (;; ++n) {
			clock_gettime(CLOCK_MONOTONIC, &t1);
			if (t1.tv_sec - t0.tv_sec >= secs) { break; }
			pid_t pid = fork();
			if (pid == 0) {
				random_mode = true;
				rng = (seed * 0x9E3779B97F4A7C15ULL) ^ ((n + 1) * 0xBF58476D1CE4E5B9ULL);
				if (!rng) { rng = 1; }
				for (int i = 0; i < 8; ++i) { next(); }
				rec = fopen(argv[4], "w");
				freopen("/dev/null", "w", stderr);
				alarm(20);
				VF_HARNESS();
				_exit(0);
			}
			int st;
			waitpid(pid, &st, 0);
			if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { continue; }
			++valid;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { continue; }
			printf("FOUND after %lu runs (%lu valid)\n", n, valid);
			return 1;
		}
		printf("none in %lu runs (%lu valid)\n", n, valid);
		return 0;
	}
	return 2;
}
