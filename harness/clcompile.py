#!/usr/bin/env python3
"""Compiles one OpenCL program source for the simulated device.

clcompile.py SOURCE PREFIX: writes PREFIX.so, or PREFIX.log if the source is not valid. Memory accesses of the kernels are instrumented (calls of
simcl_*), a table describes the kernels and their arguments."""
import os, re, subprocess, sys, tempfile, shutil

BUILTINS = r"""
#define OV __attribute__((overloadable))
#define INTS(F) F(char,uchar) F(uchar,uchar) F(short,ushort) F(ushort,ushort) F(int,uint) F(uint,uint) F(long,ulong) F(ulong,ulong)
#define D(T,U) T OV min(T a, T b) { return b < a ? b : a; } T OV max(T a, T b) { return a < b ? b : a; } \
  T OV clamp(T x, T a, T b) { return x < a ? a : ( x > b ? b : x ); } U OV abs_diff(T a, T b) { return a > b ? (U)a - (U)b : (U)b - (U)a; } \
  U OV abs(T a) { return a < 0 ? (U)-(U)a : (U)a; }
INTS(D)
#undef D
#define SAT(T,LO,HI) T OV add_sat(T a, T b) { long v = (long)a + (long)b; return v < (long)(LO) ? (LO) : ( v > (long)(HI) ? (HI) : (T)v ); } \
  T OV sub_sat(T a, T b) { long v = (long)a - (long)b; return v < (long)(LO) ? (LO) : ( v > (long)(HI) ? (HI) : (T)v ); } \
  T OV mad_sat(T a, T b, T c) { long v = (long)a * (long)b + (long)c; return v < (long)(LO) ? (LO) : ( v > (long)(HI) ? (HI) : (T)v ); } \
  T OV hadd(T a, T b) { return (T)( ( (long)a + (long)b ) >> 1 ); } T OV rhadd(T a, T b) { return (T)( ( (long)a + (long)b + 1 ) >> 1 ); }
SAT(char,-128,127) SAT(uchar,0,255) SAT(short,-32768,32767) SAT(ushort,0,65535) SAT(int,(-2147483647-1),2147483647) SAT(uint,0u,4294967295u)
int OV mul24(int a, int b) { return a * b; } uint OV mul24(uint a, uint b) { return a * b; }
int OV mad24(int a, int b, int c) { return a * b + c; } uint OV mad24(uint a, uint b, uint c) { return a * b + c; }
#define SEL(T,I) T OV select(T a, T b, I c) { return c ? b : a; }
SEL(char,char) SEL(char,uchar) SEL(uchar,char) SEL(uchar,uchar) SEL(short,short) SEL(short,ushort) SEL(ushort,short) SEL(ushort,ushort)
SEL(int,int) SEL(int,uint) SEL(uint,int) SEL(uint,uint) SEL(float,int) SEL(float,uint) SEL(long,long) SEL(long,ulong) SEL(ulong,long) SEL(ulong,ulong)
#define CVT1(S,T,LO,HI) T OV convert_##T(S v) { return (T)v; } T OV convert_##T##_sat(S v) { return (double)v < (double)(LO) ? (LO) : ( (double)v > (double)(HI) ? (HI) : (T)v ); }
#define CVTF(S,T) T OV convert_##T##_rte(S v) { return (T)__builtin_rint(v); } T OV convert_##T##_rtz(S v) { return (T)v; } \
  T OV convert_##T##_sat_rte(S v) { return convert_##T##_sat(__builtin_rint((double)v)); }
#define CVT(S) CVT1(S,char,-128,127) CVT1(S,uchar,0,255) CVT1(S,short,-32768,32767) CVT1(S,ushort,0,65535) CVT1(S,int,(-2147483647-1),2147483647) CVT1(S,uint,0u,4294967295u) \
  float OV convert_float(S v) { return (float)v; } long OV convert_long(S v) { return (long)v; } ulong OV convert_ulong(S v) { return (ulong)v; }
CVT(char) CVT(uchar) CVT(short) CVT(ushort) CVT(int) CVT(uint) CVT(long) CVT(ulong) CVT(float) CVT(double)
CVTF(float,uchar) CVTF(float,ushort) CVTF(float,int) CVTF(float,uint) CVTF(double,uchar) CVTF(double,ushort) CVTF(double,int) CVTF(double,uint)
#define M1(F,B) float OV F(float a) { return (float)B((double)a); } double OV F(double a) { return B(a); }
M1(sqrt,__builtin_sqrt) M1(native_sqrt_,__builtin_sqrt) M1(floor,__builtin_floor) M1(ceil,__builtin_ceil) M1(round,__builtin_round) M1(rint,__builtin_rint)
M1(trunc,__builtin_trunc) M1(fabs,__builtin_fabs) M1(exp,__builtin_exp) M1(log,__builtin_log) M1(sin,__builtin_sin) M1(cos,__builtin_cos)
float OV pow(float a, float b) { return (float)__builtin_pow((double)a,(double)b); } double OV pow(double a, double b) { return __builtin_pow(a,b); }
float OV fmin(float a, float b) { return a < b ? a : b; } float OV fmax(float a, float b) { return a > b ? a : b; }
float OV min(float a, float b) { return a < b ? a : b; } float OV max(float a, float b) { return a > b ? a : b; }
float OV clamp(float x, float a, float b) { return x < a ? a : ( x > b ? b : x ); }
float OV fma(float a, float b, float c) { return __builtin_fmaf(a,b,c); } float OV mad(float a, float b, float c) { return a * b + c; }
"""

SIZES = {"char": 1, "uchar": 1, "bool": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4, "float": 4, "long": 8, "ulong": 8, "double": 8, "size_t": 8}
CTYPE = {"char": "signed char", "uchar": "unsigned char", "bool": "_Bool", "short": "short", "ushort": "unsigned short", "int": "int", "uint": "unsigned int",
         "float": "float", "long": "long", "ulong": "unsigned long", "double": "double", "size_t": "unsigned long"}
CL = ["clang-18", "-x", "cl", "-cl-std=CL1.2", "-Xclang", "-finclude-default-header", "-cl-kernel-arg-info", "-fPIC", "-target", "x86_64-unknown-linux-gnu",
      "-O1", "-Wno-everything", "-fno-builtin", "-fgnu89-inline"]

def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def main():
    src, prefix = sys.argv[1:3]
    tmp = tempfile.mkdtemp(prefix="clc")
    try:
        return work(src, prefix, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def finish(path, dest):
    t = dest + ".%d" % os.getpid()
    shutil.copyfile(path, t)
    os.rename(t, dest)
    return 0

def work(src, prefix, tmp):
    p = os.path.join(tmp, "p.cl")
    shutil.copyfile(src, p)
    ll = os.path.join(tmp, "p.ll")
    r = run(CL + ["-fsanitize=thread", "-S", "-emit-llvm", p, "-o", ll])
    if r.returncode:
        log = os.path.join(tmp, "log")
        with open(log, "w") as f:
            f.write(r.stderr[:4000] or "failed\n")
        return finish(log, prefix + ".log")
    text = open(ll).read()
    md = dict(re.findall(r"^!(\d+) = !\{(.*)\}$", text, re.M))
    strs = lambda n: [x for x in re.findall(r'!"([^"]*)"', md[n])]
    kernels = []
    for m in re.finditer(r'^define [^@\n]*spir_kernel[^@\n]*@("?)([\w.$]+)\1\(.*$', text, re.M):
        line = m.group(0)
        ty = re.search(r"!kernel_arg_base_type !(\d+)", line)
        sp = re.search(r"!kernel_arg_addr_space !(\d+)", line)
        types = strs(ty.group(1)) if ty else []
        spaces = [int(x) for x in re.findall(r"i32 (\d+)", md[sp.group(1)])] if sp else []
        kernels.append((m.group(2), types, spaces))
    # groups of work items must not overlap if they use shared local memory
    grouped = bool(re.search(r"@_Z7barrierj|@_Z18work_group_barrier", text)) or bool(re.search(r"^@[^=\n]*= internal [^\n]*(undef|zeroinitializer)", text, re.M)) \
        or any(s == 3 for k in kernels for s in k[2])
    c = ["struct K { const char * name; unsigned n; const unsigned * size; const unsigned char * kind; void ( *call )( void ** ); int grouped; };"]
    rows = []
    for i, (name, types, spaces) in enumerate(kernels):
        sizes, kinds, cts = [], [], []
        for t, s in zip(types, spaces):
            if t.endswith("*"):
                sizes.append(8)
                kinds.append(2 if s == 3 else 1)
                cts.append("void *")
            elif t in SIZES:
                sizes.append(SIZES[t])
                kinds.append(0)
                cts.append(CTYPE[t])
            else:
                sys.stderr.write("kernel argument type is not supported by the simulated device: %s\n" % t)
                return 3
        c.append('extern void k%d( %s ) __asm__( "%s" );' % (i, ", ".join(cts) or "void", name))
        c.append("static const unsigned s%d[] = { %s };" % (i, ", ".join(map(str, sizes)) or "0"))
        c.append("static const unsigned char q%d[] = { %s };" % (i, ", ".join(map(str, kinds)) or "0"))
        c.append("static void c%d( void ** a ) { (void)a; k%d( %s ); }" % (i, i, ", ".join("*(%s *)a[%d]" % (t, j) for j, t in enumerate(cts))))
        rows.append('{ "%s", %d, s%d, q%d, c%d, %d }' % (name, len(cts), i, i, i, grouped))
    c.append("const struct K simcl_kernels[] = { %s };" % ", ".join(rows + ["{ 0, 0, 0, 0, 0, 0 }"]))
    with open(os.path.join(tmp, "w.c"), "w") as f:
        f.write("\n".join(c) + "\n")
    with open(os.path.join(tmp, "b.cl"), "w") as f:
        f.write(BUILTINS)
    o = lambda n: os.path.join(tmp, n)
    steps = [["clang-18", "-O1", "-fPIC", "-c", "-x", "ir", ll, "-o", o("p.o")],
             ["gcc", "-O1", "-fPIC", "-w", "-c", o("w.c"), "-o", o("w.o")],
             CL + ["-ffunction-sections", "-fvisibility=hidden", "-c", o("b.cl"), "-o", o("b.o")],
             ["ar", "rcs", o("b.a"), o("b.o")]]
    for s in steps:
        r = run(s)
        if r.returncode:
            sys.stderr.write(" ".join(s) + "\n" + r.stderr[:3000])
            return 3
    r = run(["nm", o("p.o")])
    syms = sorted(set(re.findall(r"\b(__tsan_\w+)", r.stdout)))
    cmd = ["objcopy"]
    for s in syms:
        cmd += ["--redefine-sym", "%s=simcl_%s" % (s, s[7:])]
    r = run(cmd + [o("p.o")])
    if r.returncode:
        sys.stderr.write(r.stderr[:3000])
        return 3
    r = run(["gcc", "-shared", "-Wl,--gc-sections", "-Wl,-Bsymbolic", "-o", o("p.so"), o("p.o"), o("w.o"), o("b.a"), "-lm"])
    if r.returncode:
        sys.stderr.write(r.stderr[:3000])
        return 3
    return finish(o("p.so"), prefix + ".so")

sys.exit(main())
