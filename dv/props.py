"""Property id -> how it is checked."""
import importlib


def isa(*mods):
    def go(rep):
        from . import isa as I
        for m in mods:
            mod, _, cls = m.partition(":")
            cm = importlib.import_module("dv.cpus." + mod)
            for c in cm.CPUS:
                if cls and c.__name__ not in cls.split(","):
                    continue
                cpu = c()
                rep.assumptions.extend(x for x in ISA_ASSUME + list(cpu.assumptions) if x not in rep.assumptions)
                I.run_cpu(rep, cpu)
    return go


ISA_ASSUME = [
    "the machine has the object graph its real constructors build (dumped from the real program on every run); registers and memory contents are arbitrary",
    "memory layer: callers are checked against the contracts of cl_address_space/cl_memory_cell over a ghost array; those contracts are the subject of C01",
    "no breakpoint and no peripheral is attached to the memory an instruction touches (cl_uc::do_brk returns false)",
    "cl_uc::tick and the stack-tracking calls stack_write/stack_read change no register and no memory (their own effect is C05/C07)",
    "statistics counters (vc) are not part of the statement; the cycle count is where the manual gives one",
    "signed overflow in the C++ wraps (checked as bit-vector arithmetic)",
]

CORE_ASSUME = [
    "objects a function works on lie in disjoint memory and have the class the caller declares (checked against the class layout and vtables of the compiled program)",
    "calls through a vtable reach a function of the declared class; they are replaced by the contract of the named function",
    "operator new succeeds and returns fresh memory",
    "debug and console output has no effect on the state",
]


def core(mod, run="run"):
    def go(rep):
        rep.assumptions.extend(CORE_ASSUME)
        getattr(importlib.import_module("dv.core." + mod), run)(rep)
    return go


PROPS = {
    "C01": core("memory"),
    "C02": core("decoder", run="run2"),
    "C03": core("decoder", run="run3"),
    "C04": core("uc", run="run4"),
    "C05": core("uc", run="run5"),
    "C06": core("loader"),
    "C08": core("containers"),
    "C09": core("uc", run="run9"),
    "C10": core("timers51"),
    "C12": core("serial51"),
    "C11": isa("irq"),
    "I01": isa("s51"),
    "I02": isa("mos6502:Mos6502"),
    "I03": isa("z80"),
    "I04": isa("stm8"),
    "I05": isa("i8085"),
    "I06": isa("m68hc08"),
    "I07": isa("avr"),
    "I08": isa("i8048"),
    "I09": isa("m6809"),
    "I10": isa("mos6502:Mos65C02,Mos65C02S"),
    "I11": isa("gb80"),
    "I12": isa("m6800"),
    "I13": isa("z80x"),
    "I14": isa("st7"),
    "I15": isa("pdk"),
}
