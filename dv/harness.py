"""The native side: one program per simulator, made from the same module the verifier reads.

  prog dump FILE ARGS..   constructs the machine as main() does, writes every readable mapping to
                          FILE and prints the addresses of the named fields (probes)
  prog replay ARGS..      constructs the machine, then obeys map/poke/call/peek lines on stdin
"""
import bisect
import os
import subprocess

from . import build
from .llvm import Unsupported

TEMPLATE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <signal.h>
#include <stddef.h>
@INCLUDES@

typedef unsigned long long ull;
static ull heap_base;
static ull parse(const char *s)
{
  if (s[0] == 'h') return heap_base + strtoull(s+1, 0, 16);
  return strtoull(s, 0, 16);
}
static void find_heap()
{
  char ln[512];
  FILE *m= fopen("/proc/self/maps", "r");
  while (m && fgets(ln, sizeof ln, m))
    if (strstr(ln, "[heap]")) { heap_base= strtoull(ln, 0, 16); break; }
  if (m) fclose(m);
}
/* Stubs: the entry of a function under contract jumps to a recorder that answers from a script. */
struct dv_rec { int k; ull a[6]; };
static struct dv_rec dv_log[4096]; static int dv_nlog;
static ull dv_script[64][4096]; static int dv_ns[64], dv_is[64];
template<int K> static ull dv_stub(ull a, ull b, ull c, ull d, ull e, ull f)
{
  if (dv_nlog < 4096)
    {
      struct dv_rec r= { K, { a, b, c, d, e, f } };
      dv_log[dv_nlog++]= r;
    }
  return (dv_is[K] < dv_ns[K]) ? dv_script[K][dv_is[K]++] : 0;
}
typedef ull (*dv_stub_t)(ull, ull, ull, ull, ull, ull);
template<int K> struct dv_fill { static void go(dv_stub_t *t) { t[K]= dv_stub<K>; dv_fill<K-1>::go(t); } };
template<> struct dv_fill<-1> { static void go(dv_stub_t *t) {} };
static void dv_patch(ull at, void *to)
{
  unsigned char jmp[12]= {0x48,0xb8,0,0,0,0,0,0,0,0,0xff,0xe0};
  memcpy(jmp+2, &to, 8);
  ull pg= at & ~4095ull;
  mprotect((void*)pg, 8192, PROT_READ|PROT_WRITE|PROT_EXEC);
  memcpy((void*)at, jmp, 12);
  mprotect((void*)pg, 8192, PROT_READ|PROT_EXEC);
}
static void dump(const char *fn)
{
  char ln[512];
  FILE *m= fopen("/proc/self/maps", "r");
  FILE *o= fopen(fn, "w");
  while (m && fgets(ln, sizeof ln, m))
    {
      ull a, b; char perm[8]; char name[256]= "-";
      if (sscanf(ln, "%llx-%llx %7s %*s %*s %*s %255s", &a, &b, perm, name) < 3) continue;
      if (perm[0] != 'r' || perm[2] == 'x' || !strcmp(name, "[stack]") || name[0] == '[' && name[1] == 'v') continue;
      fprintf(o, "seg %llx %llx %s\n", a, b, name);
      fwrite((void*)a, 1, b-a, o);
      fputc('\n', o);
    }
  fclose(o); fclose(m);
}
static void probes();
@PRE@
static void
dv_setup(int argc, char *argv[])
{
@SETUP@
}
static void probes()
{
@PROBES@
}
__attribute__((weak)) int dv_real_main(int argc, char *argv[]);
int main(int argc, char *argv[])
{
  if (argc > 1 && !strcmp(argv[1], "sim") && dv_real_main)
    return dv_real_main(argc - 1, argv + 1);
  mallopt(M_MMAP_MAX, 0);
  mallopt(M_TRIM_THRESHOLD, -1);
  int fd= dup(1);
  bool dumping= !strcmp(argv[1], "dump");
  const char *fn= dumping ? argv[2] : 0;
  int skip= dumping ? 2 : 1;
  argv[skip]= argv[0];
  dv_setup(argc-skip, argv+skip);
  find_heap();
  fflush(stdout);
  stdout= fdopen(fd, "w");
  setvbuf(stdout, 0, _IOLBF, 0);
  if (dumping)
    {
      printf("\n@@heap %llx\n", heap_base);
      probes();
      fflush(stdout);
      dump(fn);
      _exit(0);
    }
  struct rlimit rl= {10,10}; setrlimit(RLIMIT_CPU, &rl);
  static char ln[1<<20];
  printf("\n@@ready\n");
  while (fgets(ln, sizeof ln, stdin))
    {
      char *c= strtok(ln, " \n");
      if (!c) continue;
      if (!strcmp(c, "map"))
        {
          ull a= parse(strtok(0, " \n")), n= parse(strtok(0, " \n"));
          void *r= mmap((void*)a, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE, -1, 0);
          if (r != (void*)a) { printf("@@mapfail\n"); _exit(3); }
        }
      else if (!strcmp(c, "poke"))
        {
          unsigned char *a= (unsigned char*)parse(strtok(0, " \n"));
          char *h= strtok(0, " \n");
          for (; h[0] && h[1]; h+= 2)
            { char b[3]= {h[0],h[1],0}; *a++= strtoul(b, 0, 16); }
        }
      else if (!strcmp(c, "fill"))
        {
          ull a= parse(strtok(0, " \n")), n= parse(strtok(0, " \n")), es= parse(strtok(0, " \n")), v= parse(strtok(0, " \n"));
          for (ull i= 0; i < n; i++) memcpy((char*)a + i*es, &v, es);
        }
      else if (!strcmp(c, "ptr"))
        {
          ull *a= (ull*)parse(strtok(0, " \n")); *a= parse(strtok(0, " \n"));
        }
      else if (!strcmp(c, "call"))
        {
          ull f= parse(strtok(0, " \n")), a[6]= {0}; int n= 0; char *t;
          while (n < 6 && (t= strtok(0, " \n"))) a[n++]= parse(t);
          ull r= ((ull(*)(ull,ull,ull,ull,ull,ull))f)(a[0],a[1],a[2],a[3],a[4],a[5]);
          fflush(stdout);
          printf("\n@@ret %llx\n", r);
          for (int i= 0; i < dv_nlog; i++)
            {
              printf("@@log %d", dv_log[i].k);
              for (int j= 0; j < 6; j++) printf(" %llx", dv_log[i].a[j]);
              printf("\n");
            }
        }
      else if (!strcmp(c, "stub"))
        {
          static dv_stub_t tab[64];
          if (!tab[0]) dv_fill<63>::go(tab);
          ull a= parse(strtok(0, " \n")), k= parse(strtok(0, " \n"));
          dv_patch(a, (void*)tab[k & 63]);
        }
      else if (!strcmp(c, "script"))
        {
          ull k= parse(strtok(0, " \n")) & 63, v= parse(strtok(0, " \n"));
          dv_script[k][dv_ns[k]++]= v;
        }
      else if (!strcmp(c, "peek"))
        {
          unsigned char *a= (unsigned char*)parse(strtok(0, " \n")); ull n= parse(strtok(0, " \n"));
          printf("@@mem ");
          for (ull i= 0; i < n; i++) printf("%02x", a[i]);
          printf("\n");
        }
      else if (!strcmp(c, "quit")) break;
    }
  fflush(stdout);
  _exit(0);
}
'''

SIM_PRE = '''
#include <setjmp.h>
/* The machine is built by the program's own main(): its call of cl_app::run() comes back here. */
int dv_real_main(int argc, char *argv[]);
extern "C" char dv_app_run[] __asm__("_ZN6cl_app3runEv");
static jmp_buf dv_jb;
static int dv_hook(class cl_app *app) { longjmp(dv_jb, 1); }
'''

SIM_SETUP = '''
  {
    dv_patch((ull)dv_app_run, (void*)dv_hook);
    if (!setjmp(dv_jb))
      { dv_real_main(argc, argv); _exit(4); }
  }
  class cl_sim *sim= application->get_sim();
'''


def probe_lines(probes):
    out = []
    for name, expr in probes.items():
        if name.startswith("="):      # a value
            out.append(f'  printf("@@val {name[1:]} %llx\\n", (ull)({expr}));')
        else:
            out.append(f'  printf("@@addr {name} %llx %llx\\n", (ull)(void*)&({expr}), (ull)sizeof({expr}));')
    return "\n".join(out)


BASE_PROBES = {"=off.cell.data": "offsetof(cl_memory_cell, data)", "=off.cell.mask": "offsetof(cl_memory_cell, mask)",
               "=off.cell.ops": "offsetof(cl_memory_cell, ops)", "=off.cell.flags": "offsetof(cl_memory_cell, flags)",
               "=off.cell.width": "offsetof(cl_memory_cell, width)", "=size.cell": "sizeof(cl_memory_cell)",
               "=off.as.cella": "offsetof(cl_address_space, cella)",
               "=off.as.start": "offsetof(cl_address_space, start_address)",
               "=off.as.size": "offsetof(cl_address_space, size)",
               "=off.as.dummy": "offsetof(cl_address_space, dummy)"}


def source(includes, setup, probes, pre=""):
    inc = "\n".join(f'#include "{i}"' for i in includes)
    return (TEMPLATE.replace("@INCLUDES@", inc).replace("@SETUP@", setup).replace("@PRE@", pre)
            .replace("@PROBES@", probe_lines(probes)))


class Image:
    """The constructed machine: its memory, its symbols, the addresses of named fields."""

    def __init__(self, exe, args=(), tmp="/tmp"):
        self.exe, self.args = exe, list(args)
        fn = f"{build.BUILD}/img.{os.getpid()}.{id(self)}"
        try:
            r = subprocess.run([exe, "dump", fn, *self.args], stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                               cwd="/", env={"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "TERM": "dumb"})
            out = r.stdout.decode(errors="replace")
            if "@@heap" not in out or r.returncode:
                raise build.BuildError(f"the machine cannot be constructed (exit {r.returncode}): {out[-500:]} {r.stderr.decode(errors='replace')[-500:]}")
            data = open(fn, "rb").read()
        finally:
            if os.path.exists(fn):
                os.unlink(fn)
        self.addr, self.size, self.val = {}, {}, {}
        for ln in out.split("\n"):
            w = ln.split()
            if not w:
                continue
            if w[0] == "@@heap":
                self.heap = int(w[1], 16)
            elif w[0] == "@@addr":
                self.addr[w[1]], self.size[w[1]] = int(w[2], 16), int(w[3], 16)
            elif w[0] == "@@val":
                self.val[w[1]] = int(w[2], 16)
        self.segs = []
        p = 0
        while p < len(data):
            e = data.index(b"\n", p)
            w = data[p:e].decode().split()
            a, b = int(w[1], 16), int(w[2], 16)
            self.segs.append((a, b, data[e + 1:e + 1 + b - a]))
            p = e + 1 + b - a + 1
        self.segs.sort(key=lambda s: s[0])
        self.starts = [s[0] for s in self.segs]
        self.heap_end = max(b for a, b, _ in self.segs if a == self.heap)
        self.sym, self.sym_at = {}, {}
        out = subprocess.run(["nm", exe], stdout=subprocess.PIPE).stdout.decode()
        for ln in out.split("\n"):
            w = ln.split()
            if len(w) == 3 and w[1] not in "Uw":
                a = int(w[0], 16)
                self.sym.setdefault(w[2], a)
                self.sym_at.setdefault(a, []).append(w[2])

    def seg(self, a, n):
        i = bisect.bisect_right(self.starts, a) - 1
        if i < 0:
            return None
        s = self.segs[i]
        return s if a + n <= s[1] else None

    def read(self, a, n):
        """n bytes as a little-endian integer, or None when not mapped."""
        s = self.seg(a, n)
        if s is None:
            return None
        return int.from_bytes(s[2][a - s[0]:a - s[0] + n], "little")

    def rel(self, a):
        if self.heap <= a < self.heap_end:
            return f"h{a - self.heap:x}"
        return f"{a:x}"


class Replay:
    def __init__(self, img):
        self.img, self.cmds = img, []

    def add(self, s):
        self.cmds.append(s)

    def poke(self, a, n, v):
        v &= (1 << 8 * n) - 1
        if n == 8 and self.img.heap <= v < self.img.heap_end:
            self.add(f"ptr {self.img.rel(a)} {self.img.rel(v)}")
        else:
            self.add(f"poke {self.img.rel(a)} {v.to_bytes(n, 'little').hex()}")

    def fill(self, a, n, es, v):
        self.add(f"fill {self.img.rel(a)} {n:x} {es:x} {v:x}")

    def map(self, a, n):
        self.add(f"map {a:x} {n:x}")

    def call(self, f, args):
        self.add(f"call {f:x} " + " ".join(self.img.rel(x) for x in args))

    def peek(self, a, n):
        self.add(f"peek {self.img.rel(a)} {n:x}")

    def run(self):
        """-> (list of returns, list of peeked ints), or (None, reason)."""
        try:
            r = subprocess.run([self.img.exe, "replay", *self.img.args], input=("\n".join(self.cmds) + "\nquit\n").encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd="/",
                               env={"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "TERM": "dumb"})
        except subprocess.TimeoutExpired:
            return None, "the call did not return within 60 s"
        rets, mems = [], []
        self.logs = []
        for ln in r.stdout.decode(errors="replace").split("\n"):
            if ln.startswith("@@ret"):
                rets.append(int(ln.split()[1], 16))
            elif ln.startswith("@@log"):
                w = ln.split()
                self.logs.append((int(w[1]), [int(x, 16) for x in w[2:]]))
            elif ln.startswith("@@mem"):
                mems.append(int.from_bytes(bytes.fromhex(ln.split()[1]), "little"))
        if r.returncode:
            return None, f"the call ended the program with {r.returncode}"
        return rets, mems
