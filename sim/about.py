"""What the evidence says about every run."""
ABOUT = {
    'real': ['every module of segeval under the working tree, unmodified, re-executed from source for each run',
             'the interpreter, its threads, thread-local decimal contexts, import system, json, csv, codecs, io buffering and pickle',
             'file contents (real files in a scratch directory) and the process\'s descriptor table'],
    'stubs': ['thread scheduler: real threads, but only the one the simulator names may run; control moves at traced lines/bytecodes, I/O transfers, lock waits',
              'open/io.open/codecs.open/os.listdir/os.scandir/os.rename and the like below the scratch root: transfer sizes, buffer sizes, errors, crash points, enumeration order',
              'time.* clocks and sleep, threading.Lock/RLock (not used by the package today), importlib module locks (cooperative)',
              'user callbacks (weight, rounding, comparison functions): may fail or re-enter'],
    'assumptions': ['thread switches are possible between any two source lines (a fifth of the threaded runs: any two bytecodes) of the package, not inside interpreter built-ins',
                    'a crash keeps what the process handed to the operating system by then (process death, not power loss)',
                    'the reference models state the definitions correctly'],
}
