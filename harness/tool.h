// Runs one of the command line tools in a process of its own, feeding it what a user types.
#ifndef HARNESS_TOOL_H_
#define HARNESS_TOOL_H_

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <functional>
#include <string>

#include "boost/filesystem.hpp"

#include "pbt.h"

namespace tool {

struct Result {
  std::string output;
  int status = 0;
  bool ended = true;
};

// 'run' is called in the other process, whose working and temporary directory is 'directory'.
inline Result Run(const std::string& typed, const boost::filesystem::path& directory,
                  const std::function<int()>& run) {
  auto input_path(pbt::FreshPath("typed"));
  {
    int fd(open(input_path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600));
    std::size_t done(0);
    while (done < typed.size()) {
      ssize_t n(write(fd, typed.data() + done, typed.size() - done));
      REQUIRE(n > 0);
      done += static_cast<std::size_t>(n);
    }
    close(fd);
  }
  pbt::Finally remove([&] { unlink(input_path.c_str()); });
  int out[2];
  REQUIRE_EQ(pipe(out), 0);
  std::fflush(nullptr);
  pid_t child(fork());
  if (child == 0) {
    int in(open(input_path.c_str(), O_RDONLY));
    dup2(in, 0);
    dup2(out[1], 1);
    for (int fd : {in, out[0], out[1]})
      close(fd);
    if (chdir(directory.c_str()) != 0)
      _exit(43);
    setenv("TMPDIR", directory.c_str(), 1);
    int result(44);
    try {
      result = run();
    } catch (...) {
      result = 45;  // would have ended the tool
    }
    std::fflush(nullptr);
    _exit(result);
  }
  close(out[1]);
  Result result;
  auto until(std::chrono::steady_clock::now() + std::chrono::seconds(20));
  for (;;) {
    pollfd fd{out[0], POLLIN, 0};
    auto left(std::chrono::duration_cast<std::chrono::milliseconds>(
        until - std::chrono::steady_clock::now()));
    if (left.count() <= 0 || result.output.size() > 8000000) {
      kill(child, SIGKILL);
      result.ended = false;
      break;
    }
    if (poll(&fd, 1, static_cast<int>(left.count())) <= 0)
      continue;
    char buffer[4096];
    ssize_t n(read(out[0], buffer, sizeof buffer));
    if (n <= 0)
      break;
    result.output.append(buffer, static_cast<std::size_t>(n));
  }
  close(out[0]);
  waitpid(child, &result.status, 0);
  return result;
}

}  // namespace tool

#endif  // HARNESS_TOOL_H_
