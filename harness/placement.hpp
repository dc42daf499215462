// Where the monitored code finds its input: against an unreadable page, on either side, or in the
// middle of hostile text.
#pragma once
#include <cstring>
#include <random>
#include <string>
#include <string_view>
#include <sys/mman.h>

namespace placement
{
    class Arena
    {
            size_t pages;
            char*  base;
            char*  end;

        public:
            explicit Arena(size_t bytes = 3 << 16)
            {
                pages       = (bytes + 4095) / 4096;
                char* whole = (char*) mmap(nullptr,
                                           (pages + 2) * 4096,
                                           PROT_NONE,
                                           MAP_PRIVATE | MAP_ANONYMOUS,
                                           -1,
                                           0);
                base        = whole + 4096;
                end         = base + pages * 4096;
                mprotect(base, pages * 4096, PROT_READ | PROT_WRITE);
            }
            size_t capacity() const
            {
                return pages * 4096;
            }
            // the byte after the input cannot be read
            std::string_view before_guard(std::string_view s)
            {
                if (!s.empty())
                    memcpy(end - s.size(), s.data(), s.size());
                return {end - s.size(), s.size()};
            }
            // the byte before the input cannot be read
            std::string_view after_guard(std::string_view s)
            {
                if (!s.empty())
                    memcpy(base, s.data(), s.size());
                return {base, s.size()};
            }
            // the input is a part of a bigger text
            std::string_view inside(std::string_view s, std::string_view prefix, std::string_view suffix)
            {
                memcpy(base, prefix.data(), prefix.size());
                if (!s.empty())
                    memcpy(base + prefix.size(), s.data(), s.size());
                memcpy(base + prefix.size() + s.size(), suffix.data(), suffix.size());
                return {base + prefix.size(), s.size()};
            }
    };
} // namespace placement
