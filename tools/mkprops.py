import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
TP=["src/thread_pool.cpp","src/thread_pool.h"]
FP=["src/function_pool.cpp","src/function_pool.h","src/function_pool_task.cpp","src/function_pool_task.h"]+TP
FILES=["src/file/bmp_image.cpp","src/file/png_image.cpp","src/file/jpeg_image.cpp","src/file/file_image.cpp","src/file/raw_image.h"]
OCL=["src/opencl/image_function_opencl.cpp","src/opencl/image_buffer_opencl.h","src/opencl/opencl_memory.h","src/opencl/opencl_helper.cpp","src/opencl/opencl_device.cpp"]
p("C01","Every submitted task runs exactly once before its submitter's wait returns",
 "When a task provider submits a batch of N tasks to a thread pool and then waits, each of the ids 0..N-1 is executed exactly once, every execution has finished when the wait returns, and nothing of the batch runs afterwards. This holds for any number of workers, any number of providers sharing the pool, and any number of successive batches from the same provider.",
 ["schedules","histories"],"Every interleaving of workers and submitters, every worker count, every mix of providers and successive batches.",
 "thread_pool unit tests run a handful of batches under whatever schedule the OS happens to pick; the windows (a worker between finishing its task and reporting it, a submitter re-submitting at once) are a few instructions wide.",
 TP,[("queue of providers guarded by one mutex; ids handed out per provider","src/thread_pool.cpp ThreadPool::add / _workerThread"),("completion counting and the waiter's condition variable","src/thread_pool.cpp AbstractTaskProvider::_taskRun / _wait")],
 [("given/completed/total task counters","ids handed out, finished and submitted for the current batch","src/thread_pool.h AbstractTaskProvider")],["the task callback","return of wait"])
p("C02","A task's exception is reported to its own waiter and harms nobody else",
 "If at least one task of a batch throws, the wait for that batch reports failure; if none throws it reports success. The failing batch still runs all its tasks, the pool keeps serving every other provider, and later batches of the same provider start with a clean state.",
 ["schedules","histories"],"Every choice of throwing tasks, every interleaving with other providers and later batches.",
 "Unit tests throw from all tasks of one batch on one schedule; they never mix failing and healthy providers or observe a failure racing with the end of the batch.",
 TP,[("exception flag set by workers, consumed by the waiter","src/thread_pool.cpp AbstractTaskProvider::_taskRun / _wait")],None,["return value of wait","later batches"])
p("C03","Resizing a busy thread pool loses, repeats and blocks nothing",
 "Growing or shrinking a thread pool at any moment while batches are queued or running lets every submitted task still run exactly once and every wait return, and when the resize call returns the pool has the requested number of workers, with no task executing on a worker that was removed. The same holds for any sequence of resizes, including from several threads, and for a pool that was stopped and resized again.",
 ["schedules","histories"],"Every sequence of resize/stop/submit and every interleaving of it with the running workers.",
 "Tests resize only idle pools and look at the thread count.",
 TP,[("per-worker exit and run flags plus creation handshake","src/thread_pool.cpp ThreadPool::resize / _workerThread"),("global pool wrapper","src/thread_pool.cpp ThreadPoolMonoid")],
 [("worker list and flags","which workers exist, which are asked to leave","src/thread_pool.h ThreadPool")],["threadCount","task callback","return of resize and wait"])
p("C04","Discarding queued work releases its waiters and never runs it later",
 "Clearing or stopping a pool, removing a provider from it, or destroying the pool while work is queued or running, or destroying a provider whose work is still queued, makes every waiter of the affected providers return in bounded time. Tasks already started finish first, discarded tasks never run, no id runs twice, and once the provider's destructor, or a wait after the removal, has returned no worker touches the provider.",
 ["schedules","histories","crash_points"],"Cancellation (clear, remove, stop, destruction) at every point of a batch's life, under every interleaving.",
 "Only stop/clear on an idle pool is exercised by tests; cancellation of in-flight work is never tested.",
 TP,[("clear/remove/stop/destructors","src/thread_pool.cpp ThreadPool::clear, remove, stop; TaskProvider::~TaskProvider; AbstractTaskProvider::~AbstractTaskProvider")],None,["return of wait, clear, stop, destructor","task callback"])
p("C05","Concurrent use of a thread pool is free of data races and memory errors",
 "Any mix of the public thread pool operations issued from several threads at once (submitting, waiting, resizing, querying, clearing, stopping) accesses shared memory only in a properly ordered way: no two unordered conflicting accesses, no access to freed memory, no misuse of a lock or condition variable.",
 ["schedules","histories"],"Every interleaving of the pool's public operations with each other and with the workers.",
 "The suite is single-threaded from the caller's side and is not run under a race detector; a racy program usually passes.",
 TP,[("the two mutexes and condition variables of the pool","src/thread_pool.cpp"),("atomics for the per-batch counters","src/thread_pool.h")])
p("C06","A pool survives failure to create threads or allocate memory",
 "If the system refuses a new thread or memory while a pool is constructed, resized or given work, the call fails with an exception and nothing else: no hang, no termination, no lost or repeated task of work accepted before. Afterwards the pool and its providers accept and complete new work with whatever workers they have, and can be resized again.",
 ["fault_sequences","schedules"],"Thread-creation or allocation failure at every point of every pool operation, followed by further use.",
 "No test can make pthread_create or an allocation fail.",
 TP,[("unwinding in resize and add","src/thread_pool.cpp ThreadPool::resize, ThreadPool::add, TaskProvider::_run")])
p("C07","Multithreaded image functions equal the sequential definition",
 "For every function offered by the multithreaded function pool, any image sizes, row alignments, colour counts and regions, any number of workers and any scheduling, the result is exactly what the sequential definition of that function gives, and no byte outside the requested output region (row padding included) is modified.",
 ["schedules","inputs","configurations"],"All functions x geometries x worker counts x schedules.",
 "Tests use whole images with constant values and the default thread count, so split boundaries, tiny regions, padding and races between neighbouring slices are not exercised.",
 FP,[("splitting of the region between workers","src/function_pool_task.cpp FunctionPoolTask::_setup, InputImageInfo"),("per-slice result merge for reductions","src/function_pool.cpp")],None,["output image bytes","returned values"])
p("C08","Concurrent callers of the multithreaded functions are isolated",
 "Calls of multithreaded image functions from several threads at the same time on unrelated images each return the result they would have returned alone, in bounded time, even while the shared pool is being resized by another thread.",
 ["schedules","histories"],"All interleavings of concurrent calls, with and without concurrent change of the thread count.",
 "Tests call one function at a time.",
 FP,[("process-wide pool with one provider per call","src/thread_pool.cpp ThreadPoolMonoid; src/function_pool_task.cpp")])
p("C09","A multithreaded image function that fails, fails cleanly",
 "If a multithreaded image function is given invalid arguments, or memory or threads run out at any point inside it, its caller gets an exception (or the exact result), never a hang, a crash or a silently wrong result; nothing is leaked and the shared pool then serves further calls exactly.",
 ["fault_sequences","schedules"],"Every failure point of every function, under any schedule.",
 "Tests check only a few invalid arguments and never an internal failure.",
 FP,[("exception relayed from workers to the caller","src/function_pool_task.cpp FunctionPoolTask::_processTask"),("wait result","src/thread_pool.cpp AbstractTaskProvider::_wait")])
p("C10","Library functions are re-entrant",
 "Image, filter, edge detection, blob detection, Fourier, Haar, Hough and file functions called from several threads at once on separate objects give each caller exactly the result it would get alone and share no unsynchronised state, including on the very first call in the process.",
 ["schedules","histories"],"All interleavings of any mix of library functions, first use included.",
 "The suite runs one function at a time in one thread.",
 ["src/image_function.cpp","src/image_function_helper.cpp","src/image_function_simd.cpp","src/penguinv/penguinv.cpp","src/image_buffer.h","src/filtering.cpp","src/edge_detection.cpp","src/blob_detection.cpp","src/fft.cpp","src/math/fft_base.h","src/math/hough_transform.cpp","src/math/haar_transform.cpp"],
 [("one-time tables and singletons","src/image_function_helper.cpp ImageTypeManager; src/penguinv/penguinv.cpp; src/filtering.cpp; src/image_buffer.h")])
p("C11","The CPU memory pool never hands out overlapping or foreign memory",
 "Blocks handed out by the memory pool are aligned as promised, do not overlap any other live block, stay usable until freed whatever other threads allocate or free, and keep their contents; memory freed in any order becomes allocatable again as one whole, and resizing the pool never invalidates a live block.",
 ["schedules","histories"],"Every history of reserve/allocate/free from any number of threads and every interleaving.",
 "Tests allocate and free a few blocks from one thread and check only for absence of exceptions.",
 ["src/memory/cpu_memory.h","src/memory/memory_allocator.h"],
 [("buddy split and merge over power-of-two levels","src/memory/cpu_memory.h MemoryAllocator::_allocate, _free; src/memory/memory_allocator.h _split, _merge"),("allocator lock","src/memory/memory_allocator.h BaseMemoryManager")],
 [("free lists per level and allocated map","which parts of the arena are free","src/memory/memory_allocator.h")])
p("C12","A failing allocation leaves the memory pool intact",
 "When the memory pool cannot serve a request, or system memory runs out inside any of its operations, the caller gets an exception or memory from elsewhere; the pool keeps all live blocks valid, loses no memory, and keeps serving all threads without blocking.",
 ["fault_sequences","histories","schedules"],"Allocation failure at every allocation inside every pool operation, under any history.",
 "No test makes an allocation fail or touches the pool after an error.",
 ["src/memory/cpu_memory.h","src/memory/memory_allocator.h"],[("error paths of allocate/free/reserve","src/memory/cpu_memory.h"),("allocator lock","src/memory/memory_allocator.h")])
p("C13","Image objects stay consistent when memory runs out",
 "If an allocation fails in any operation that creates, copies, assigns, moves, resizes or converts an image, the operation throws and every image involved stays consistent: either as before or empty, with its reported geometry always backed by memory of that size, so that it can be used, resized again and destroyed. Sources of failed operations are unchanged and nothing is leaked.",
 ["fault_sequences","histories"],"Allocation failure at every allocation of every history of image operations.",
 "Allocation failure cannot be produced by the unit tests.",
 ["src/image_buffer.h","src/memory/cpu_memory.h"],[("geometry updated around allocation","src/image_buffer.h ImageTemplate::resize, copy, swap, clear")],
 [("width, height, row size, data","geometry and storage of an image","src/image_buffer.h ImageTemplate")])
p("C14","Library functions survive memory exhaustion",
 "If any allocation inside an image, filter, edge, blob, Fourier, Haar or Hough function fails, the call throws, leaks nothing, leaves its inputs unchanged and all objects usable, and repeating the call with memory available gives the exact result.",
 ["fault_sequences"],"Failure of the k-th allocation for every k, for every function.",
 "Allocation failure cannot be produced by the unit tests.",
 ["src/image_function.cpp","src/image_function_helper.cpp","src/image_function_simd.cpp","src/filtering.cpp","src/edge_detection.cpp","src/blob_detection.cpp","src/fft.cpp","src/math/fft_base.h","src/math/haar_transform.cpp","src/math/hough_transform.cpp","src/penguinv/penguinv.cpp"],
 [("raw new[]/malloc scratch buffers","src/image_function.cpp Dilate; src/fft.cpp; src/blob_detection.cpp")])
p("C15","An image saved and loaded again is the same image",
 "Saving an image, or a region of it, to a BMP, PNG or raw file and loading that file returns exactly the saved pixels and geometry (JPEG: same geometry and region, pixels within its lossy tolerance), for every size, colour count and alignment the format supports, and however the operating system splits, interrupts or delays the transfers.",
 ["inputs","fault_sequences"],"All geometries and regions; all patterns of short and interrupted reads and writes.",
 "Tests load one 8-bit sample and save a few fixed sizes on a healthy disk.",
 FILES,[("format writers and readers","src/file/*.cpp"),("row padding and bottom-up order","src/file/bmp_image.cpp")],None,["pixels after load"])
p("C16","A save that did not reach the disk is reported",
 "If a file cannot be created, a write, flush or close fails, or the disk becomes full at any point of saving an image, the save call reports an error with an exception; when a save returns normally the complete file is stored and loads back. The process is never terminated and no file handle or memory is left behind.",
 ["fault_sequences","crash_points"],"Failure of every single storage operation of every save, in every format.",
 "Tests never save to a failing or full disk.",
 FILES,[("stream and libpng/libjpeg error handling","src/file/bmp_image.cpp Save; src/file/png_image.cpp Save; src/file/jpeg_image.cpp Save; src/file/raw_image.h")],None,["exception from save","stored bytes"])
p("C17","Loading a damaged or unreadable file never yields a wrong image",
 "Loading a file that is missing, truncated, corrupted in its headers, changed while being read, or whose reads fail, throws an exception, returns an empty image, or returns a fully initialised image with geometry and pixels taken from the file's actual contents; it never crashes, hangs, terminates the process or reads or writes outside its buffers, and a file whose pixel data is cut short or unreadable is never reported as loaded. No file handle or memory is left behind.",
 ["fault_sequences","inputs"],"Every truncation point, every corrupted header field, every failing or short read, in every format.",
 "Tests load one intact file and check that a missing one throws.",
 FILES,[("header validation and read checks","src/file/bmp_image.cpp Load; src/file/raw_image.h"),("libpng/libjpeg error handling","src/file/png_image.cpp; src/file/jpeg_image.cpp")],None,["exception or image from load"])
p("C18","A crash while saving never leaves a file that loads as a wrong image",
 "If the process dies at any point of saving an image, in any format, whether creating the file or replacing an older one, then loading the left-over file later either fails (an exception or an empty image) or returns the image that was being saved (or, if nothing of it was changed yet, the older one).",
 ["crash_points"],"Every prefix of the sequence of storage operations and every byte within a write.",
 "Tests never interrupt a save.",
 FILES,[("file created truncated, written front to back; length checks on load","src/file/bmp_image.cpp; src/file/raw_image.h; src/file/png_image.cpp; src/file/jpeg_image.cpp")],None,["image loaded after restart"])
p("C19","OpenCL image functions equal the CPU definition",
 "Every OpenCL image function gives, for any image sizes, regions and row alignments and however the device orders and overlaps its work items, exactly the result of the CPU definition, touches nothing outside the requested region, and reads or writes no device memory outside its buffers; transfers between host and device keep every pixel.",
 ["schedules","inputs"],"All functions x geometries x orders and interleavings of work items x device memory sizes.",
 "Tests run whole-image constants on one CPU driver with its one execution order and no bounds checking.",
 OCL,[("kernels","src/opencl/image_function_opencl.cpp"),("kernel argument marshalling and work sizes","src/opencl/opencl_helper.cpp; src/opencl/opencl_helper.h"),("host-device transfer","src/opencl/image_function_opencl.cpp ConvertToOpenCL / ConvertFromOpenCL")])
p("C20","Every OpenCL runtime failure surfaces as an exception and leaks nothing",
 "If any call into the OpenCL runtime (other than a release call) or any host allocation fails, at any point of opening devices, allocating, transferring, building, running or querying, the library call throws (or, when opening devices, leaves out only the device concerned), never returns a wrong result, crashes or hangs; every runtime object created is released exactly once, and the same operation succeeds with the exact result once the runtime works again.",
 ["fault_sequences","histories"],"Failure of every single runtime call in every history of device, memory and image operations.",
 "A driver cannot be made to fail from a unit test.",
 OCL,[("status checks","src/opencl/opencl_types.h openCLCheck"),("owning wrappers","src/opencl/opencl_device.cpp"),("device memory pool","src/opencl/opencl_memory.h")])
p("C21","OpenCL devices can be closed, reopened, switched and shared by threads",
 "After devices are closed and opened again, or the active device is switched, OpenCL image functions keep giving exact results on the device that owns the images; threads working with separate images on the same or different devices do not disturb each other, and a thread's choice of device affects only itself.",
 ["histories","schedules"],"All histories of open/close/switch/use over several devices and threads and all their interleavings.",
 "Tests open the devices once and use them from one thread.",
 OCL,[("per-thread current device id","src/opencl/opencl_device.cpp OpenCLDeviceManager"),("per-device caches of programs and kernels","src/opencl/image_function_opencl.cpp; src/opencl/opencl_helper.cpp")])
p("C22","Generic functions convert between image types transparently and safely",
 "A generic image function called with images of different registered types gives the same result in the caller's output image, of its original type, as if all images had one type; inputs are unchanged, every temporary is released, and if conversion, allocation or the function itself fails the caller gets an exception and all images stay valid. Function tables and conversions may be registered in any order, in several steps and late: whatever is registered at the time of a call is used, and nothing registered is lost.",
 ["histories","fault_sequences","configurations"],"All functions x combinations of image types x failures of any conversion or allocation.",
 "Tests use a single image type per call.",
 ["src/penguinv/penguinv.cpp","src/penguinv/image_manager.h","src/image_function_helper.cpp"],[("temporary converted images","src/penguinv/image_manager.h ImageManager"),("type and conversion registry","src/image_function_helper.cpp ImageTypeManager")])
CUD=["src/cuda/image_function_cuda.cu","src/cuda/cuda_device.cu","src/cuda/cuda_memory.cuh","src/cuda/cuda_types.cuh","src/cuda/image_buffer_cuda.cuh","src/cuda/image_buffer_cuda_pinned.cuh","src/cuda/cuda_fft.cu","src/cuda/filtering_cuda.cu","src/cuda/cuda_helper.cu"]
p("C27","CUDA image functions equal the CPU definition",
 "Every CUDA image function, transfer, image operation (device and pinned memory, any colour depth), typed value or array and FFT-based Gaussian filter gives, for any image sizes, regions and row alignments, device limits, current stream and order in which devices execute their work, exactly the CPU definition's result (the filter: circular convolution with its kernel, rounded), touches nothing outside the requested region and no device memory outside its buffers; a kernel launched over a size runs once for each of its items.",
 ["schedules","inputs"],"All functions x geometries x device limits x streams x orders and delays of device work.",
 "CUDA tests need a device and run constants on one driver with its one order of execution.",
 CUD,[("kernels and transfers","src/cuda/image_function_cuda.cu"),("launch geometry","src/cuda/cuda_helper.cu getGridParameters"),("streams","src/cuda/cuda_device.cu CudaStream"),("FFT","src/cuda/cuda_fft.cu")])
p("C29","Every CUDA runtime failure surfaces as an exception and leaks nothing",
 "If any call into the CUDA runtime or cuFFT or any host allocation fails, or a kernel fails on the device, while devices are opened or closed, memory is allocated, transferred or released, or functions run, the library call (for kernels at the latest the next synchronising one) throws, unless it only releases something, never returns a wrong result, terminates the process or hangs; each failure is reported once, everything allocated is released exactly once, other images stay intact, and the same operation succeeds exactly once the runtime works again.",
 ["fault_sequences","histories"],"Failure of every single runtime call in every history of device, memory, FFT and image operations.",
 "A driver cannot be made to fail from a unit test.",
 CUD,[("status checks","src/cuda/cuda_helper.cu cudaCheck"),("owning wrappers","src/cuda/cuda_types.cuh"),("device memory pool","src/cuda/cuda_memory.cuh"),("FFT data and plans","src/cuda/cuda_fft.cu")])
p("C30","CUDA devices can be closed, reopened, switched and shared by threads",
 "After devices are closed and opened again, or the active device is switched, CUDA functions keep giving exact results on the active device; memory is allocated on the device it was requested from and returned to its owner no matter which device is active; managing one device does not change a thread's active device; threads working with separate images on the same or different devices do not disturb each other.",
 ["histories","schedules"],"All histories of open/close/switch/reserve/use over several devices and threads and all their interleavings.",
 "CUDA tests open the devices once and use them from one thread.",
 CUD[1:5],[("per-thread current device id","src/cuda/cuda_device.cu CudaDeviceManager"),("device memory pool","src/cuda/cuda_memory.cuh")])
p("C31","Objects of the library may live as long as the process",
 "Images, FFT data, device values, thread pools and task providers may be objects with static storage duration, created before or after the first use of the library: at the end of the process, in whatever order they were created, nothing of the library uses a memory allocator, thread pool or device manager which no longer exists; contents stay intact until the destruction, all threads have ended, all memory is released, and the process ends normally, also if a device driver is unloaded first.",
 ["histories","schedules"],"All orders of creation of objects and of the first uses of the library's singletons, combined with tasks in flight, failures and the end of the process.",
 "A test program ends once, in one order, after its results have been reported.",
 ["src/memory/cpu_memory.h","src/image_buffer.h","src/thread_pool.cpp","src/fft.cpp","src/opencl/opencl_device.cpp","src/cuda/cuda_device.cu"],[("singletons","src/memory/cpu_memory.h MemoryManager::memory, src/thread_pool.cpp ThreadPoolMonoid::instance, src/opencl/opencl_device.cpp OpenCLDeviceManager::instance, src/cuda/cuda_device.cu CudaDeviceManager::instance"),("destructors which use them","src/image_buffer.h ImageTemplate, src/fft.h ComplexData, src/thread_pool.h TaskProviderSingleton")])
p("C32","A Windows window always shows its current image and figures",
 "Whatever the order in which the system and a user expose, resize, minimise, message and close a window (UiWindowWin), whenever the window waits for the next message its content is exactly the current image (scaled to the window; a large image is reduced to the screen) with all drawn points, lines, ellipses and rectangles at their places and the given title; showing, drawing in and replacing the image of a shown window display it until the user closes it, as often as wanted; the window exists as long as its object. If the system refuses a class, a window or a drawing tool or memory runs out, the call throws or does without, the window keeps what it was, and every window, device context, drawing tool and memory is released.",
 ["schedules","fault_sequences","histories","inputs"],"All orders of messages, image geometries and screens, sequences of operations of one or two windows and threads, and refusals.",
 "The interface code is not even compiled by the tests: it needs Windows.",
 ["src/ui/win/win_ui.cpp","src/ui/win/win_ui.h","src/ui/ui.cpp"],[("message loop and window procedure","src/ui/win/win_ui.cpp _display, WindowProcedure"),("picture of the image","src/ui/win/win_ui.cpp setImage"),("figures","src/ui/win/win_ui.cpp UiWindowWinInfo::paint")])
# not applicable
na=["schedules"]
p("C23","Sequential CPU image functions match their pixel definitions",
 "Each CPU image function computes, for every valid image and region, the pixel-wise result its documentation defines and touches nothing outside the region.",
 ["inputs"],"All images, regions and parameters.","Tests sample constant images.",
 ["src/image_function.cpp","src/image_function.h"],[("loops over the region","src/image_function.cpp")])
p("C24","Vectorised and scalar implementations agree",
 "For every function, every image and every instruction set available, the vectorised implementation gives bit-for-bit the scalar result.",
 ["inputs","configurations"],"All images and regions x instruction sets.","Tests sample constant images.",
 ["src/image_function_simd.cpp"],[("per-instruction-set kernels and remainder loops","src/image_function_simd.cpp")])
p("C25","Invalid images and regions are rejected before any memory is touched",
 "Every function given an empty image, mismatching colour counts, or a region that does not fit (including by integer overflow) throws without reading or writing pixel memory.",
 ["inputs"],"All parameter combinations.","Tests sample a few out-of-range values.",
 ["src/parameter_validation.h"],[("parameter checks","src/parameter_validation.h")])
p("C26","Filters, edges, blobs and transforms compute what they define",
 "Median, Sobel, Prewitt and Gaussian filters, edge and blob detection, Fourier, Haar and Hough transforms give the mathematically defined result for every valid input (forward and inverse transforms restore the input within rounding).",
 ["inputs"],"All valid inputs.","Tests sample a few synthetic images.",
 ["src/filtering.cpp","src/edge_detection.cpp","src/blob_detection.cpp","src/fft.cpp","src/math/haar_transform.cpp","src/math/hough_transform.cpp"],[("sequential numeric code","src/*.cpp")])
p("C28","An X11 window always shows its current image and points",
 "Whatever the order in which a display server exposes, resizes, messages and closes a window (UiWindowX11), whenever the window has nothing left to do its content is exactly the current image (also one replaced by setImage) with the drawn points and the given title; only the user's close request ends the call which shows it. If the server refuses a connection or an image, an image cannot be shown, or memory runs out, the call throws and keeps the window as it was; an empty image does no harm, and every display object is released.",
 ["schedules","fault_sequences","histories","inputs"],"All event orders, image geometries, sequences of operations and refusals.","The interface code has no tests: it needs a display.",
 ["src/ui/ui.cpp","src/ui/ui.h","src/ui/x11/x11_ui.cpp"],[("X11 window","src/ui/x11"),("base window","src/ui/ui.cpp")])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
