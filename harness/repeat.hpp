#pragma once
// A virtual region of gigabytes that repeats one block of real memory.
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
struct Repeat {
	size_t n, ch;
	unsigned char *p = nullptr;
	int fd = -1;
	Repeat(size_t n, size_t ch) : n(n), ch(ch) {
		fd = (int)syscall(SYS_memfd_create, "pbt", 1u);
		if (fd < 0) { char t[] = "/tmp/pbthugeXXXXXX"; fd = mkstemp(t); if (fd >= 0) unlink(t); }
		if (fd < 0 || ftruncate(fd, (off_t)ch)) { perror("huge buffer"); _exit(99); }
		size_t all = (n + ch - 1) / ch * ch;
		p = (unsigned char *)mmap(nullptr, all, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) { perror("huge buffer"); _exit(99); }
		for (size_t o = 0; o < all; o += ch)
			if (mmap(p + o, ch, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("huge buffer"); _exit(99); }
	}
	~Repeat() { munmap(p, (n + ch - 1) / ch * ch); close(fd); }
	Repeat(const Repeat &) = delete;
};
