// What the runner is doing, in a shared mapping the driver reads when the process dies or hangs.
#pragma once
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace progress
{
    struct Page
    {
            long case_index;
            long input_number;
            long size; // of the input, at most sizeof(input)
            char stage[24];
            char input[4000];
    };

    inline Page*         page = nullptr;
    inline volatile long ticks_on_same = 0, last_seen = -1;
    inline long          max_ticks     = 10;

    inline void on_tick(int)
    {
        if (page->input_number != last_seen)
        {
            last_seen     = page->input_number;
            ticks_on_same = 0;
            return;
        }
        ticks_on_same = ticks_on_same + 1;
        if (ticks_on_same >= max_ticks)
            _exit(77); // hang: no progress for max_ticks seconds of CPU time
    }

    inline void start(const char* file, long hang_seconds)
    {
        int fd = open(file, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Page)) != 0)
            _exit(78);
        page = (Page*) mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (page == MAP_FAILED)
            _exit(78);
        close(fd);
        memset(page, 0, sizeof(Page));
        max_ticks = hang_seconds;
        struct sigaction sa {};
        sa.sa_handler = on_tick;
        sigaction(SIGVTALRM, &sa, nullptr);
        itimerval t {{1, 0}, {1, 0}};
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
    }

    inline void on_case(long k)
    {
        page->case_index = k;
        page->input_number++;
        page->size = 0;
    }

    inline void on_input(std::string_view s)
    {
        page->input_number++;
        page->size = (long) std::min(s.size(), sizeof(page->input));
        memcpy(page->input, s.data(), page->size);
        page->stage[0] = 0;
    }

    inline void stage(const char* s)
    {
        strncpy(page->stage, s, sizeof(page->stage) - 1);
    }

    inline std::string hex(std::string_view s)
    {
        static const char* d = "0123456789abcdef";
        std::string        r;
        for (unsigned char c: s)
        {
            r.push_back(d[c >> 4]);
            r.push_back(d[c & 15]);
        }
        return r;
    }
    // one field of a line of output
    inline std::string field(std::string_view s)
    {
        static const char* d = "0123456789abcdef";
        std::string        r;
        for (unsigned char c: s)
            if (c >= 32 && c < 127)
                r.push_back((char) c);
            else
                r += {'\\', 'x', d[c >> 4], d[c & 15]};
        return r;
    }
    inline std::string unhex(std::string_view s)
    {
        std::string r;
        auto        v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        for (size_t i = 0; i + 1 < s.size(); i += 2)
            r.push_back((char) (v(s[i]) * 16 + v(s[i + 1])));
        return r;
    }
} // namespace progress
