// Fuzz target: runs the real main() of gendlopen in a fresh process per input.
// stdin: argument lines, 0x1E, custom template, 0x1E, input file
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#ifndef __AFL_FUZZ_TESTCASE_LEN
#define __AFL_INIT() do {} while (0)
#endif

int gendlopen_main(int, char **);

static std::string memfile(const std::string &data, const char *name)
{
    int fd = memfd_create(name, 0);
    if (fd < 0 || write(fd, data.data(), data.size()) != (ssize_t)data.size()) {
        _exit(77);
    }
    lseek(fd, 0, SEEK_SET);
    return "/proc/self/fd/" + std::to_string(fd);
}

int main(int, char **argv)
{
    __AFL_INIT();
    std::string data;
    char buf[65536];
    ssize_t n;
    while ((n = read(0, buf, sizeof(buf))) > 0) {
        data.append(buf, n);
    }
    std::string part[3];
    int k = 0;
    for (char c : data) {
        if (c == '\x1e' && k < 2) {
            k++;
        } else {
            part[k] += c;
        }
    }
    if (k != 2) {
        return 0;
    }
    std::vector<std::string> args;
    args.push_back(argv[0]);
    std::string line;
    part[0] += '\n';
    for (char c : part[0]) {
        if (c == '\n' || c == 0) {
            // anything that could write files stays out
            if (!line.empty() && line.find("out") == std::string::npos && line.find("dump") == std::string::npos &&
                line.find("force") == std::string::npos && line.find("templates-path") == std::string::npos)
            {
                args.push_back(line);
            }
            line.clear();
        } else {
            line += c;
        }
    }
    args.push_back("-no-date");
    if (!part[1].empty()) {
        args.push_back("-template=" + memfile(part[1], "tpl"));
    }
    args.push_back(memfile(part[2], "in"));
    std::vector<char *> av;
    for (auto &s : args) {
        av.push_back(s.data());
    }
    av.push_back(nullptr);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    int rc = gendlopen_main((int)av.size() - 1, av.data());
    if (rc != 0 && rc != 1) {
        abort();
    }
    return rc;
}
