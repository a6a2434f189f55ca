"""What each check runs."""
RT_STUB = ["OS thread scheduler, mutexes, condition variables, static-init guards (SimRT)", "clock (SimRT)", "heap (SimRT arena)"]
POOL_REAL = ["src/thread_pool.cpp", "libstdc++ std::thread/mutex/condition_variable front end"]

def pool(name, **kw):
    d = dict(target="pool", scenarios=[dict(name=name, chunk=60)], real=POOL_REAL, stub=RT_STUB, quick_s=35, thorough_s=900,
             assumptions=["sequentially consistent memory: only interleavings are explored, weak-memory reorderings are covered by the happens-before race detector",
                          "scenarios use at most 4 workers, 3 clients and 8 tasks per batch"])
    d.update(kw)
    return d

PROPS = {
    "C01": pool("pool_once"),
    "C02": pool("pool_exception"),
    "C03": pool("pool_resize"),
    "C04": pool("pool_cancel"),
    "C05": pool("pool_races"),
    "C06": pool("pool_failures"),
}

FPOOL_REAL = POOL_REAL + ["src/function_pool.cpp", "src/function_pool_task.cpp", "src/image_function*.cpp", "src/penguinv/penguinv.cpp", "src/image_buffer.h", "src/parameter_validation.h"]

def fpool(name, **kw):
    d = dict(target="fpool", real=FPOOL_REAL, stub=RT_STUB, quick_s=45, thorough_s=1200,
             scenarios=[dict(name=name, chunk=60, weight=2), dict(name=name, chunk=60, arch="haswell"), dict(name=name, chunk=60, arch="x86-64")],
             assumptions=["images of at most 3000 bytes, at most 6 workers and 3 callers",
                          "expected results come from per-pixel models written from the definition of each function",
                          "discarding tasks of a running call through clear() or stop() of the shared pool is not part of these properties"])
    d.update(kw)
    return d

PROPS.update({
    "C07": fpool("fpool_exact"),
    "C08": fpool("fpool_callers"),
    "C09": fpool("fpool_failing"),
})

MEM_REAL = ["src/memory/memory_allocator.h", "src/memory/cpu_memory.h", "src/image_buffer.h"]

def memory(name, **kw):
    d = dict(target="memory", real=MEM_REAL, stub=RT_STUB, quick_s=35, thorough_s=900,
             scenarios=[dict(name=name, chunk=100)],
             assumptions=["pools of at most 8 KiB, at most 3 threads and 60 operations in a history",
                          "threads interleave at every synchronisation, allocation and instrumented memory access; weak-memory reorderings are covered by the happens-before race detector"])
    d.update(kw)
    return d

PROPS.update({
    "C11": memory("memory_pool"),
    "C12": memory("memory_failures"),
    "C13": memory("memory_images"),
})

LIB_REAL = ["src/image_function*.cpp", "src/penguinv/penguinv.cpp", "src/image_buffer.h", "src/parameter_validation.h", "src/blob_detection.cpp", "src/edge_detection.cpp",
            "src/fft.cpp", "src/filtering.cpp", "src/math/*.cpp", "src/thirdparty/kissfft", "src/tool/light_correction.cpp"]

def lib(name, **kw):
    d = dict(target="lib", real=LIB_REAL, stub=RT_STUB, quick_s=45, thorough_s=1200,
             scenarios=[dict(name=name, chunk=60, weight=2), dict(name=name, chunk=60, arch="haswell"), dict(name=name, chunk=60, arch="x86-64")],
             assumptions=["images of at most 900 bytes, at most 4 threads",
                          "expected results come from per-pixel models, or from the same call run alone in a fresh process image where no model is written"])
    d.update(kw)
    return d

PROPS.update({
    "C10": lib("lib_reentrant"),
    "C14": lib("lib_exhausted"),
})

FILE_REAL = ["src/file/*.cpp", "src/file/raw_image.h", "src/image_buffer.h", "src/parameter_validation.h", "libpng", "libjpeg", "libstdc++ fstream", "stdio buffering of the C library"]

def file(name, **kw):
    d = dict(target="file", real=FILE_REAL, stub=RT_STUB + ["the operating system's file system and file calls (SimDisk)"], quick_s=35, thorough_s=1200,
             scenarios=[dict(name=name, chunk=60)],
             assumptions=["images of at most 9000 bytes, rarely of more than one 4 MiB block",
                          "the storage keeps what a successful write and close put there; a crash keeps a prefix of the operations in the order of issue",
                          "files are judged by readers and writers of BMP, PNG and JPEG written or driven independently of the code under test"])
    d.update(kw)
    return d

PROPS.update({
    "C15": file("file_roundtrip"),
    "C16": file("file_savefail"),
    "C17": file("file_badload"),
    "C18": file("file_crash"),
})
PROPS["C10"]["scenarios"].append(dict(name="file_concurrent", chunk=60, target="file"))
PROPS["C10"]["real"] = LIB_REAL + FILE_REAL[:2]

CL_REAL = ["src/opencl/*.cpp", "src/opencl/*.h", "src/image_buffer.h", "src/memory/memory_allocator.h", "src/image_function_helper.cpp",
           "the kernel sources in src/opencl/image_function_opencl.cpp (compiled for the host by clang)"]

def opencl(name, **kw):
    d = dict(target="opencl", real=CL_REAL, stub=RT_STUB + ["the OpenCL runtime and its devices (SimCL)"], quick_s=35, thorough_s=1200,
             scenarios=[dict(name=name, chunk=60)],
             assumptions=["images of at most 900 bytes, at most 4 devices on 2 platforms and 4 threads",
                          "kernels are compiled for the host by clang as OpenCL C; work items are interleaved at work-item granularity with checks of every access to device memory",
                          "release calls of the runtime do not fail"])
    d.update(kw)
    return d

PROPS.update({
    "C19": opencl("cl_exact"),
    "C20": opencl("cl_failures"),
    "C21": opencl("cl_devices"),
})

PROPS["C22"] = lib("types", target="types", scenarios=[dict(name="types", chunk=60, weight=2), dict(name="types", chunk=60, arch="x86-64"), dict(name="cl_types", chunk=60, target="opencl")],
                  assumptions=["images of at most 900 bytes, three image types with full, partial or empty function tables, and OpenCL images on a simulated device",
                               "expected results come from per-pixel models"])
PROPS["C22"]["real"] = LIB_REAL + CL_REAL[:2]
PROPS["C22"]["stub"] = RT_STUB + ["two image types with encoded pixels and conversions and functions failing on demand", "the OpenCL runtime and its devices (SimCL)"]

CUDA_REAL = ["src/cuda/*.cu", "src/cuda/*.cuh", "src/image_buffer.h", "src/memory/memory_allocator.h", "src/image_function_helper.cpp", "src/math/fft_base.cpp",
             "the kernels of the library (compiled for the host; only the <<<>>> launches are rewritten)"]

def cuda(name, **kw):
    d = dict(target="cuda", real=CUDA_REAL, stub=RT_STUB + ["the CUDA runtime, cuFFT and their devices (SimCUDA)"], quick_s=35, thorough_s=1200,
             scenarios=[dict(name=name, chunk=60)],
             assumptions=["images of at most 900 bytes, at most 4 devices and 4 threads",
                          "kernels are compiled for the host by g++; work items are interleaved at work-item granularity with checks of every access to device memory",
                          "the simulated runtime follows the documented ordering of streams, of the default stream and of memory operations"])
    d.update(kw)
    return d

PROPS.update({
    "C27": cuda("cuda_exact"),
    "C29": cuda("cuda_failures"),
    "C30": cuda("cuda_devices"),
})

PROPS["C31"] = dict(target="life", real=FPOOL_REAL + LIB_REAL[4:8] + CL_REAL[:2] + CUDA_REAL[:2] + ["src/memory/cpu_memory.h"],
                    stub=RT_STUB + ["the end of the process (SimRT runs the exit handlers)", "the OpenCL runtime and its devices (SimCL)", "the CUDA runtime and its devices (SimCUDA)"],
                    quick_s=40, thorough_s=900, scenarios=[dict(name="life", chunk=100, weight=2), dict(name="cl_life", chunk=60, target="opencl"), dict(name="cuda_life", chunk=60, target="cuda")],
                    assumptions=["at most 3 objects of each kind with static storage duration, created in at most 12 steps; they are destroyed in reverse order of creation by the main thread",
                                 "objects with static storage duration of one process image; libraries loaded and unloaded at run time are not covered"])

PURE = "a pure function of its arguments: no schedule, clock, I/O, fault or history it could depend on, so simulation has nothing to decide; sampling its inputs would be another technique"
PROPS["C28"] = dict(target="ui", real=["src/ui/ui.cpp", "src/ui/x11/x11_ui.cpp", "src/image_buffer.h"], stub=RT_STUB + ["Xlib and the display server (SimX)"],
                    quick_s=25, thorough_s=600, scenarios=[dict(name="ui_x11", chunk=200)],
                    assumptions=["images of at most 20x20 pixels, at most 2 windows one after another, at most 7 events of a user before he closes a window",
                                 "a display with 32 bits per pixel in little-endian order; a lost connection to the server ends the process by definition of Xlib and is not simulated"])
PROPS["C32"] = dict(target="uiwin", real=["src/ui/ui.cpp", "src/ui/win/win_ui.cpp", "src/image_buffer.h"], stub=RT_STUB + ["the Windows API: window classes, windows, messages, drawing (SimWin); the code is compiled with _WIN32 only for this file"],
                    quick_s=30, thorough_s=600, scenarios=[dict(name="ui_win", chunk=200)],
                    assumptions=["images of at most 33x33 pixels on screens of 10 to 1000 pixels, at most 2 windows in each of at most 2 threads, at most 6 events of a user before he closes a window",
                                 "windows are used by the thread which has created them; a window which a user reduces shows one of the pixels of each replaced block"])

NOT_APPLICABLE = {
    "C23": PURE + " (the reference models used for C07, C10 and C14 touch some of these results in passing)",
    "C24": PURE,
    "C25": PURE,
    "C26": PURE,
}
