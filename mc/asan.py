"""Re-execute the current process with the sanitizer runtime preloaded and ASan/UBSan-instrumented extensions."""
import os
import subprocess
import sys


FLAGS = ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
         "-D_GLIBCXX_SANITIZE_VECTOR=1", "-fno-sanitize=vptr,alignment,null")


def ensure():
    """In a process without the runtime: build and exec; returns the extension table otherwise."""
    from mc import potload

    table = {e: potload.compile_ext(e, FLAGS, tag="asan") for e in potload.EXTS}
    if os.environ.get("VERIF_ASAN") == "1":
        return table
    lib = subprocess.run(["g++", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    ub = subprocess.run(["g++", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip()
    std = subprocess.run(["g++", "-print-file-name=libstdc++.so"], capture_output=True, text=True).stdout.strip()
    env = dict(os.environ)
    env["LD_PRELOAD"] = " ".join(os.path.realpath(x) for x in (lib, ub, std))
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_segv=0:allocator_may_return_null=1:symbolize=0:quarantine_size_mb=16"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    env["VERIF_ASAN"] = "1"
    os.execve(sys.executable, [sys.executable, "-W", "ignore", "-m", "mc"] + sys.argv[1:], env)
