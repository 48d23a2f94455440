"""The properties, and how each is claimed."""
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, note=None, na=None, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, na=na, **k))


ISA_NOTE = ("Every documented opcode is proved against a written ISA contract for all register and memory contents; the memory layer enters through its "
            "contracts (C01), breakpoints/peripherals on the touched cells, tick accounting and stack tracking are excluded; trusted: clang front end, the VC "
            "generator in dv/sym.py, z3. A unit the generator cannot reach falls back to a bounded, labelled differential run.")
ISA_WHY = "The stable tests run three STM8 programs; no number of test programs covers every {} instruction with all register, flag and memory contents."


ISA_DESIGN = ("Specified: one contract per opcode (registers, flags, PC, memory and I/O contents after the instruction, and the frame: nothing else), in "
              "`dv/cpus/`, written from the manual, not from the code. Proved: from an arbitrary machine state whose next instruction is that opcode, the simulator's own "
              "dispatch (`exec_inst`, through the real dispatch table and vtables) ends in the contract's state on every path. Memory is a ghost array per address space; "
              "callers meet the contracts of `cl_address_space` and `cl_memory_cell`, which are themselves proved under C01. No bound on operand, register, flag or memory "
              "content. Where the manual gives instruction times, the contract also has a ghost cycle count that the calls of `tick` must add up to. Tests run a handful of programs; a proof per opcode covers each operand and each address wrap.")


def isa(id, cpu, title, statement, files, mech, **k):
    P(id, title, statement, ["inputs", "programs"],
      "every documented instruction, with every operand, register, flag and memory content", ISA_WHY.format(cpu), files, mech,
      note=ISA_NOTE, design=ISA_DESIGN.format(cpu), observe=["register file, flags, memory and cycle count after one executed instruction"], **k)


isa("I02", "6502", "6502 instructions do what the MCS6500 manual says",
    "Executing any documented NMOS 6502 instruction (except BRK; JMP (abs) with a pointer in the last byte of a page; ADC and SBC in decimal mode of operands that are not BCD, "
    "and the N, V, Z flags after decimal arithmetic) from any machine state leaves exactly the registers, flags, program counter and memory contents that the "
    "processor manual defines, and changes nothing else; the instruction takes the documented number of cycles, page crossings and taken branches included.",
    ["src/sims/mos6502.src/ialu.cc", "src/sims/mos6502.src/ibranch.cc", "src/sims/mos6502.src/imove.cc", "src/sims/mos6502.src/inst.cc", "src/sims/mos6502.src/mos6502.cc"],
    [("opcode dispatch and execution", "src/sims/mos6502.src/mos6502.cc exec_inst, itab"), ("addressing modes", "src/sims/mos6502.src/mos6502.cc zpg..indY"),
     ("arithmetic and flags", "src/sims/mos6502.src/ialu.cc")])

isa("I03", "Z80", "Z80 instructions do what the Z80 CPU User Manual says",
    "Executing any documented Z80 instruction (unprefixed, CB, ED, DD, FD, DDCB, FDCB) from any machine state leaves exactly the registers, documented flags, "
    "program counter, interrupt flip-flops, refresh counter, memory and I/O contents that the CPU manual defines, and changes nothing else; the instruction takes the documented number of T states.",
    ["src/sims/z80.src/inst.cc", "src/sims/z80.src/inst_cb.cc", "src/sims/z80.src/inst_ed.cc", "src/sims/z80.src/inst_xd.cc", "src/sims/z80.src/inst_xxcb.cc", "src/sims/z80.src/z80mac.h", "src/sims/z80.src/z80.cc"],
    [("opcode dispatch", "src/sims/z80.src/z80.cc exec_inst"), ("arithmetic and flags", "src/sims/z80.src/z80mac.h"), ("block instructions", "src/sims/z80.src/inst_ed.cc")])

isa("I01", "MCS-51", "MCS-51 instructions do what the Intel MCS-51 manual says",
    "Executing any of the 255 MCS-51 instructions from any machine state leaves exactly the program counter, internal RAM, special function registers (ACC, B, PSW "
    "except its parity bit, SP, DPTR, any directly addressed SFR seen as plain storage), external RAM and code memory that the instruction set manual defines, and changes "
    "nothing else; PC arithmetic and MOVC addresses wrap at 64K; the instruction takes the documented number of machine cycles. (MOV A,ACC and PUSH SP are outside: the manual does not define them.)",
    ["src/sims/s51.src/arith.cc", "src/sims/s51.src/bit.cc", "src/sims/s51.src/inc.cc", "src/sims/s51.src/jmp.cc", "src/sims/s51.src/logic.cc", "src/sims/s51.src/mov.cc", "src/sims/s51.src/uc51.cc"],
    [("opcode dispatch", "src/sims/s51.src/uc51.cc exec_inst; src/core/sim.src/uc.cc exec_inst_uctab"), ("direct addressing", "src/sims/s51.src/uc51.cc get_direct"),
     ("arithmetic and flags", "src/sims/s51.src/arith.cc"), ("address wrap", "src/core/sim.src/mem.cc validate_address")])

isa("I04", "STM8", "STM8 instructions do what PM0044 says",
    "Executing any documented STM8 instruction (no prefix, 0x72, 0x90, 0x91, 0x92; except HALT, WFI, WFE, BREAK and the interrupt-line jumps) from any machine state leaves "
    "exactly the registers A, X, Y, SP, the condition codes, PC and memory (where the memory map has memory) that the programming manual defines, and changes nothing else; pushes and pops roll the stack "
    "pointer over at its limit.",
    ["src/sims/stm8.src/inst.cc", "src/sims/stm8.src/stm8.cc", "src/sims/stm8.src/stm8mac.h"],
    [("opcode dispatch", "src/sims/stm8.src/stm8.cc exec_inst"), ("addressing modes", "src/sims/stm8.src/inst.cc fetchea, get_dest"),
     ("flags", "src/sims/stm8.src/inst.cc flag_cvh"), ("stack roll-over", "src/sims/stm8.src/stm8.cc cl_sp::write")])

isa("I05", "8080/8085", "8080 and 8085 instructions do what the Intel manual says",
    "Executing any documented 8080 instruction (except HLT, IN, OUT, EI and DI) on the I8080 and the I8085 model from any machine state leaves exactly the registers, the "
    "S, Z, AC, P and CY flags (AC after ANA/ANI is outside: the family members differ), program counter, stack pointer and memory that the assembly language manual "
    "defines, and changes nothing else; addresses wrap at 64K; the instruction takes the number of clock cycles documented for that processor, also for conditions not met.",
    ["src/sims/i8085.src/ialu.cc", "src/sims/i8085.src/imove.cc", "src/sims/i8085.src/ibranch.cc", "src/sims/i8085.src/inst.cc", "src/sims/i8085.src/i8080.cc", "src/sims/i8085.src/i8080cl.h", "src/sims/i8085.src/i8085.cc"],
    [("opcode dispatch", "src/sims/i8085.src/i8080.cc itab, exec_inst"), ("arithmetic and flags", "src/sims/i8085.src/ialu.cc add8, sub8, DAA"),
     ("parity table", "src/sims/i8085.src/si8085.cc main, glob.cc ptab")])

isa("I06", "M68HC08/HCS08", "M68HC08 and HCS08 instructions do what the CPU08 manual says",
    "Executing any documented M68HC08 instruction on the HC08 model, or HCS08 instruction on the HCS08 model (except STOP, WAIT, BGND, CALL and RTC; DAA only of what adding "
    "BCD numbers can leave and without its V flag; Z and the registers after a division that overflows are outside; the IRQ pin of BIL/BIH is high), from any machine state leaves exactly the "
    "registers A, X, H, SP, the condition codes, PC and memory that the reference manual defines, and changes nothing else; addresses wrap at 64K.",
    ["src/sims/m68hc08.src/inst.cc", "src/sims/m68hc08.src/m68hc08.cc", "src/sims/m68hc08.src/hc08mac.h"],
    [("opcode dispatch", "src/sims/m68hc08.src/m68hc08.cc exec_inst"), ("addressing modes", "src/sims/m68hc08.src/inst.cc fetchea"),
     ("arithmetic and flags", "src/sims/m68hc08.src/inst.cc inst_adc, inst_sbc, inst_cphx")])

isa("I07", "AVR", "AVR instructions do what the AVR instruction set manual says",
    "Executing any AVR instruction that the simulated device has (its disassembler knows it; SLEEP, ELPM excepted) from any state leaves exactly the registers, SREG, stack pointer, "
    "data memory, program memory and 16-bit program counter that the instruction set manual defines, and changes nothing else; skips pass over both words of a two word "
    "instruction; the instruction takes the documented number of cycles (LDS and STS not judged). Outside: what the manual leaves undefined (a pointer register as the operand of its own pre-decrement or post-increment access), displacement past "
    "the end of data memory, a stack laid over the stack pointer's own registers, skipping a word that is no instruction.",
    ["src/sims/avr.src/arith_inst.cc", "src/sims/avr.src/avr.cc", "src/sims/avr.src/bit_inst.cc", "src/sims/avr.src/jump_inst.cc", "src/sims/avr.src/logic_inst.cc", "src/sims/avr.src/move_inst.cc", "src/sims/avr.src/glob.cc"],
    [("opcode dispatch", "src/sims/avr.src/avr.cc exec_inst"), ("arithmetic and SREG", "src/sims/avr.src/arith_inst.cc"), ("stack", "src/sims/avr.src/avr.cc push_addr, pop_addr"),
     ("skips", "src/sims/avr.src/jump_inst.cc cpse_Rd_Rr; glob.cc disass_avr")])

isa("I08", "MCS-48", "MCS-48 instructions do what the MCS-48 user's manual says",
    "Executing any instruction of an 8050 (MCS-48 instruction set; the port expander instructions MOVD, ORLD, ANLD excepted) from any state leaves exactly the accumulator, PSW with "
    "its stack pointer and bank select, register banks, internal and external RAM, program counter (12 bits, A11 only changed by JMP, CALL and returns, and 0 for JMP and CALL in "
    "interrupt service), F1, memory bank select, timer, timer flag and mode, interrupt enables, bus latch and port latches that the manual defines, and changes nothing else; "
    "the instruction takes one or two machine cycles as documented. "
    "Outside: conditional jumps whose address byte is the last of its page, MOVP3 in the upper bank, the bus latch after MOVX.",
    ["src/sims/i8048.src/i8020.cc", "src/sims/i8048.src/i8048.cc", "src/sims/i8048.src/i8020cl.h", "src/sims/i8048.src/i8048cl.h", "src/sims/i8048.src/arith.cc", "src/sims/i8048.src/branch.cc", "src/sims/i8048.src/move.cc", "src/sims/i8048.src/inst.cc", "src/sims/i8048.src/timer.cc", "src/sims/i8048.src/port.cc", "src/sims/i8048.src/bus.cc"],
    [("fetch and bank", "src/sims/i8048.src/i8020.cc fetch, set_PC"), ("stack", "src/sims/i8048.src/i8020.cc push, pop"), ("arithmetic", "src/sims/i8048.src/arith.cc"),
     ("jumps", "src/sims/i8048.src/branch.cc"), ("timer instructions", "src/sims/i8048.src/timer.cc")])
isa("I09", "MC6809", "MC6809 instructions do what the programming manual says",
    "Executing any documented MC6809 instruction, in every addressing mode (all defined indexed postbytes), from any state leaves exactly A, B, CC, DP, X, Y, U, S, PC and memory as the "
    "programming manual defines, effective addresses and the PC wrapping in 64 K, and changes nothing else; SYNC and CWAI stop the CPU. Outside: flags that the manual leaves undefined, "
    "EXG and TFR between registers of different sizes.",
    ["src/sims/m6809.src/m6809.cc"],
    [("indexed addressing", "src/sims/m6809.src/m6809.cc index2ea"), ("arithmetic and CC", "src/sims/m6809.src/m6809.cc inst_add8, inst_add16"),
     ("stacking", "src/sims/m6809.src/m6809.cc push_regs, pull_regs"), ("dispatch", "src/sims/m6809.src/m6809.cc exec_inst, inst_low, inst_alu, inst_page1, inst_page2")])

isa("I10", "65C02 and 65C02S", "65C02 and 65C02S instructions do what the W65C02S data sheet says",
    "Executing any 65C02 or 65C02S instruction (except BRK, WAI and STP, ADC and SBC in decimal mode of operands that are not BCD, and the V flag after decimal arithmetic), including the bit "
    "instructions RMB, SMB, BBR and BBS of the 65C02S and the reserved opcodes, which are no-operations of a documented length, from any machine state leaves exactly the registers, flags, program "
    "counter and memory contents that the processor manual defines, and changes nothing else; the instruction takes the documented number of cycles (BBR and BBS not judged).",
    ["src/sims/mos6502.src/mos65c02.cc", "src/sims/mos6502.src/mos65c02s.cc", "src/sims/mos6502.src/ialu.cc", "src/sims/mos6502.src/imove.cc", "src/sims/mos6502.src/mos6502.cc"],
    [("65C02 instructions", "src/sims/mos6502.src/mos65c02.cc, mos65c02cl.h"), ("65C02S bit instructions", "src/sims/mos6502.src/mos65c02s.cc rmb, smb, bbr, bbs"),
     ("shared 6502 instructions", "src/sims/mos6502.src/ialu.cc, imove.cc, ibranch.cc")])

isa("I11", "LR35902 (GB80)", "LR35902 (GB80) instructions do what the Game Boy CPU manual says",
    "Executing any LR35902 instruction, unprefixed or CB prefixed, on the GB80 model from any machine state leaves exactly the registers, the Z, N, H and C flags (the low half of F "
    "is 0), stack pointer, program counter, interrupt enable and memory contents that the Game Boy CPU manual defines, and changes nothing else; addresses wrap at 64K; the instruction "
    "takes the documented number of clock cycles. EI takes effect at once.",
    ["src/sims/z80.src/gb80.cc", "src/sims/z80.src/inst_gb80.cc", "src/sims/z80.src/glob_gb80.cc", "src/sims/z80.src/inst.cc", "src/sims/z80.src/inst_cb.cc", "src/sims/z80.src/z80mac.h"],
    [("opcode dispatch", "src/sims/z80.src/gb80.cc exec_inst"), ("GB instructions", "src/sims/z80.src/inst_gb80.cc"), ("shared arithmetic and flags", "src/sims/z80.src/z80mac.h"),
     ("times", "src/sims/z80.src/glob_gb80.cc")])

isa("I12", "Motorola M6800, MC6801 and M68HC11", "M6800, MC6801 and M68HC11 instructions do what the Motorola manuals say",
    "Executing any defined instruction of the M6800, the MC6801 or the M68HC11 (with its pages 18, 1A and CD) from any machine state leaves exactly the registers, the flags, "
    "stack pointer, program counter and memory contents that the manual of that part defines, and changes nothing else; addresses wrap at 64K; WAI stacks the registers and waits; "
    "the instruction takes the documented number of cycles. S and X of the M68HC11's condition code register are not modelled; SWI, TEST and STOP are outside.",
    ["src/core/motorola.src/m6800.cc", "src/core/motorola.src/m6800cl.h", "src/core/motorola.src/ialu68.cc", "src/core/motorola.src/imove68.cc", "src/core/motorola.src/ibranch68.cc",
     "src/core/motorola.src/inst68.cc", "src/core/motorola.src/m6801.cc", "src/core/motorola.src/m68hc11.cc"],
    [("M6800 dispatch and addressing modes", "src/core/motorola.src/m6800.cc exec_inst, idx, ext, dir"), ("arithmetic and flags", "src/core/motorola.src/ialu68.cc"),
     ("moves and stack", "src/core/motorola.src/imove68.cc"), ("branches and calls", "src/core/motorola.src/ibranch68.cc"), ("MC6801 additions", "src/core/motorola.src/m6801.cc"),
     ("M68HC11 pages and additions", "src/core/motorola.src/m68hc11.cc")])

isa("I13", "Z180, eZ80, R800 and Z80N", "Z180, eZ80, R800 and Z80N run Z80 code as a Z80 does and their added instructions as documented",
    "Executing any documented Z80 instruction on the Z180, eZ80 (Z80 mode), R800 or Z80N model from any machine state does what the Z80 manual says; the added instructions - "
    "IN0, OUT0, TST and MLT (Z180, eZ80), LEA, PEA and the 16 bit loads through HL, IX and IY (eZ80), the halves of IX and IY (eZ80, R800), MULUB and MULUW (R800), and SWAPNIB, MIRROR, "
    "TEST, the barrel shifts, MUL, ADD rr,A, ADD rr,nn, PUSH nn, OUTINB, NEXTREG, PIXELDN, PIXELAD, SETAE, JP (C), LDIX, LDDX and LDWS (Z80N) - leave exactly the documented registers, "
    "flags, memory and ports, and change nothing else. T states are judged for the Z80 instructions of the Z80N.",
    ["src/sims/z80.src/inst_ed.cc", "src/sims/z80.src/z80.cc", "src/sims/z80.src/ez80.cc", "src/sims/z80.src/r800.cc", "src/sims/z80.src/inst.cc", "src/sims/z80.src/z80mac.h"],
    [("Z180 instructions", "src/sims/z80.src/inst_ed.cc inst_ed_"), ("Z80N instructions", "src/sims/z80.src/z80.cc inst_z80n"), ("eZ80 instructions", "src/sims/z80.src/ez80.cc"),
     ("R800 multiplication", "src/sims/z80.src/r800.cc inst_ed_")])

isa("I14", "ST7", "ST7 instructions do what the ST7 programming manual says",
    "Executing any defined ST7 instruction, with its prefixes and addressing modes, from any machine state leaves exactly the accumulator, index registers, condition code register, stack "
    "pointer, program counter and memory contents that the programming manual defines, and changes nothing else; addresses wrap at 64K; HALT and WFI enable interrupts and stay where they "
    "are. LD S,reg addresses page 1; TRAP, JRIL and JRIH (interrupt pin) are outside, cycle counts are not judged.",
    ["src/sims/st7.src/st7.cc", "src/sims/st7.src/inst.cc", "src/sims/st7.src/st7mac.h", "src/sims/st7.src/regsst7.h"],
    [("opcode dispatch", "src/sims/st7.src/st7.cc exec_inst"), ("addressing modes", "src/sims/st7.src/inst.cc fetchea, get_dest"), ("operations and flags", "src/sims/st7.src/inst.cc inst_"),
     ("stack", "src/sims/st7.src/st7mac.h push, pop")])

isa("I15", "Padauk PDK13, PDK14 and PDK15", "PDK13, PDK14 and PDK15 instructions do what the Padauk instruction set says",
    "Executing any defined PDK13, PDK14 or PDK15 instruction from any machine state leaves exactly the accumulator, flags (Z, C, AC, OV), stack pointer, program counter, timer 16 count, "
    "multiplier high byte, RAM and IO contents that the instruction set defines (skips, rotates through carry, bit operations on RAM and IO, indirect moves through a pointer, calls and "
    "returns included), and changes nothing else. IO registers are plain storage here; Z after a move from memory or IO, cycle counts, LDSPTL/LDSPTH, ENGINT, DISGINT, STOPSYS, STOPEXE, RESET, "
    "WDRESET and the PDK16 instruction set are outside.",
    ["src/sims/pdk.src/pdk13.cc", "src/sims/pdk.src/pdk14.cc", "src/sims/pdk.src/pdk15.cc", "src/sims/pdk.src/inst.cc", "src/sims/pdk.src/pdk.cc"],
    [("opcode dispatch", "src/sims/pdk.src/pdk14.cc execute_pdk14"), ("arithmetic and flags", "src/sims/pdk.src/inst.cc cl_fpp::add_to, sub_to"), ("stack", "src/sims/pdk.src/pdk.cc push, pop")])

CORE_NOTE = ("Every listed function carries a contract (precondition, postcondition, frame, loop invariants for unbounded lists and arrays); its compiled body is "
             "executed symbolically from an arbitrary state and the solver discharges each obligation; calls are replaced by the callee's contract. Trusted: clang "
             "front end, the VC generator in dv/sym.py and dv/fn.py, z3.")
CORE_DESIGN = ("Specified: a contract per function over arbitrary objects (size, width, contents, lists of any length), loop invariants for "
               "loops over cells, operators, banks; the property is the conjunction of the postconditions and frames. Callers are checked against callee contracts. A few seconds to a minute.")
MEM = ["src/core/sim.src/mem.cc", "src/core/sim.src/memcl.h"]

P("C01", "Memory keeps what was written, and only where it was written",
  "For every memory chip and address space of every size and width, whatever was written or set before: get/read of a valid address gives the value last set/written there "
  "(reduced to the cell's width) as seen through that cell's operators; set and write change that one cell and no other; download writes through to the cell even if it is "
  "read-only; an access outside the address range touches no cell but reports an invalid address and works on the dummy cell; bit and flag access, range flag setting, "
  "searching for a cell and validating or incrementing an address (by a non-negative amount) tell and change exactly what they are asked for; an address validated by an "
  "address space wraps into its range; the chain of operators on a cell (breakpoints, hardware, banking) is walked in order, adding one at either end or removing one "
  "leaves the others in order; registering and unregistering hardware on an address, setting and deleting breakpoints there reaches that cell only; a slot index of a chip "
  "and the slot's address convert into each other.",
  ["inputs", "histories"], "every chip size, cell width, address, value, number of operators and earlier contents",
  "The stable tests read a few STM8 addresses; the guarantee is about every address, width, cell class and operator chain, in and out of range.",
  MEM, [("cells", "mem.cc cl_memory_cell, cl_cell8..cl_bit_cell16"), ("address spaces", "mem.cc cl_address_space::read/write/get/set/download"), ("chips", "mem.cc cl_chip8/16/32, get_slot"),
        ("operator chain", "mem.cc cl_memory_cell::append_operator, prepend_operator, del_operator")], note=CORE_NOTE, design="Units: `dv/core/*.py`. "+CORE_DESIGN)

P("C02", "Decoding maps an address area to the right place of the chip",
  "For every address decoder, address space and chip: when a decoder is activated for an area that lies in the address space and fits in the chip, every address of the area is "
  "mapped to the cell of the chip at chip start plus its offset and no other address is changed; the questions whether a decoder covers, is covered by, or is fully covered by "
  "an area are answered by the two ranges alone; when another decoder takes over part of the area, what stays outside of the new area is still mapped to its own place, no two "
  "decoders overlap, a decoder that has nothing left is deleted, and the cells of a taken area are undecoded.",
  ["inputs", "histories"], "every begin and end address, chip size and every list of decoders (undecode_area itself: lists of up to 3, bounded)",
  "Tests use the fixed memory maps that the simulators build at start; users create and delete decoders at run time.",
  MEM, [("activation", "mem.cc cl_address_decoder::activate"), ("taking over an area", "mem.cc cl_address_space::undecode_area"), ("shrink and split", "mem.cc cl_address_decoder::shrink_out_of, split")],
  design="Units: `dv/core/decoder.py`. "+CORE_DESIGN, note=CORE_NOTE + " Bounded (never counted as proved): cl_address_space::undecode_area over lists of 1..3 decoders with arbitrary ranges.")

P("C03", "Banked and bit-banded areas follow their selector",
  "For every banker: the bank in effect is the one that the selector fields (contiguous bit masks of the one or two selector registers, the second shifted above the first) "
  "choose; switching to a bank maps every address of the banked area to the cell of that bank at the same offset, an empty bank leaves the area as it was, the other addresses "
  "do not change; replacing the decoder of a bank keeps the area decoded; activating decodes the area of the bank in effect; a bit bander maps each address of its area to "
  "the one bit of the chip that its distance from the start selects.",
  ["inputs", "histories"], "every number of banks, area, mask, selector value and earlier decoding",
  "No stable test switches banks.", MEM,
  [("bank selection", "mem.cc cl_banker::actual_bank, init"), ("bank switching", "mem.cc cl_banker::switch_to, activate, add_bank"), ("bit banding", "mem.cc cl_bander::activate")], note=CORE_NOTE, design="Units: `dv/core/*.py`. "+CORE_DESIGN)

P("C04", "Breakpoints stop the simulation exactly when they should",
  "For every set of breakpoints and every machine state: while running (and never on the first instruction after a start) the simulation breaks before the instruction at the program counter exactly when a fetch "
  "breakpoint is set there and hits; a breakpoint hits when it has been reached as often as its hit count says and its condition, if any, is not 0, and then counts anew; a temporary fetch breakpoint is deleted when it hits and no other is; "
  "reading or writing a cell with an event breakpoint for that access notes the event once per hit without changing the value read or written, and the simulation stops on noted events with each breakpoint acting once; "
  "setting or deleting a breakpoint marks or unmarks only its own cell; breakpoints are found, and removed, by address and by number whatever the others are.",
  ["inputs", "histories"], "every number of breakpoints, address, hit count, condition value, event kind and memory layout",
  "Hit counts, conditions, several breakpoints at a place and event breakpoints that share cells with peripherals are combinations no test enumerates.",
  ["src/core/sim.src/brk.cc", "src/core/sim.src/brkcl.h", "src/core/sim.src/uc.cc", "src/core/sim.src/mem.cc"],
  [("one breakpoint", "brk.cc cl_brk::do_hit, condition, activate"), ("collections", "brk.cc brk_coll"), ("at fetch", "uc.cc cl_uc::do_brk, check_events"), ("events", "mem.cc cl_memory_cell::set_brk, cl_write_operator, cl_read_operator")],
  note=CORE_NOTE + " That a breakpoint flag on a cell is kept apart from its value is C01; that a removed operator leaves the others is C01 too.", design="Units: `dv/core/uc.py` (`units4`). "+CORE_DESIGN)

P("C05", "Simulated time advances once, by the right amount, everywhere",
  "For every instruction and every set of timers and peripherals: a cycle count added to the simulated clock reaches the clock, every running counter of the matching kind and every peripheral that is switched on exactly once; "
  "the total ticks and each counter's ticks are the sum of what was added (weighted by the clocks per tick), counters that run down go down by it, stopped ones keep their value, idle and in-interrupt counters move only in that state; "
  "real time is that number of ticks over the clock frequency; one step executes exactly one instruction with its before and after work once; a fetch returns the byte at the program counter and steps it on by one within the code space; "
  "a run limited to a number of steps, cycles or a moment stops when that is reached and not before; counters are found, made and removed by name and by number without touching the others.",
  ["inputs", "histories"], "every number of counters and peripherals, cycle count, clock frequency and state",
  "Tests run a few programs with no counters; the invariants hold for every number of counters and peripherals.",
  ["src/core/sim.src/uc.cc", "src/core/sim.src/sim.cc", "src/core/sim.src/hw.cc"],
  [("tick", "uc.cc cl_uc::tick, tick_hw, cl_ticker::tick"), ("one step", "uc.cc cl_uc::do_inst, do_emu, pre_inst, post_inst; sim.cc cl_sim::step"), ("fetch", "uc.cc cl_uc::fetch"), ("counters", "uc.cc add_counter, del_counter, get_counter"),
   ("limits", "uc.cc cl_time_measurer; cl_uc::stop_when; sim.cc")], note=CORE_NOTE, design="Units: `dv/core/uc.py` (`units5`). "+CORE_DESIGN)

P("C06", "A program file is loaded exactly as it says",
  "For every Intel hex file and every S-record file (any number and order of records, memories of 8, 16, 24 and 32 bits): every data record with a good checksum is loaded once, completely, in the order of the file, each word at its address "
  "(the record's address plus, in Intel hex, the upper half set by the last extended linear address record; word address is byte address over bytes per word) and with its value (lowest byte first); "
  "nothing is loaded from a record with a bad checksum, a broken or cut record, or a record of another type; reading ends at the end record or at the end of the file, and the number of words (bytes) loaded is told; "
  "what is loaded goes to the memory that was asked for, within the address range and moved by the offset that was asked for, into the bank it belongs to; when comparing, memory is only read and the result tells whether it was equal; "
  "lines of a file are delivered completely, the last one too.",
  ["inputs"], "every file, memory width, address range, offset and kind of memory",
  "The tests load a handful of files written by one linker; overlapping, broken or multi-segment files never occur in them.",
  ["src/core/sim.src/uc.cc", "src/core/utils.src/fio.cc"],
  [("Intel hex", "uc.cc cl_uc::read_hex_file, ReadInt"), ("S-records", "uc.cc cl_uc::read_s19_file, s19, h2"), ("where it goes", "uc.cc cl_uc::set_rom"), ("lines and characters", "fio.cc cl_f::get_s, get_c, read_dev, put, get, eof")],
  note=CORE_NOTE+" Records of memories wider than 8 bits hold whole words; what two characters that are not hexadecimal digits mean is left open; record types of Intel hex other than 0, 1 and 4 and the other formats (omf, cdb, asc, p2h, rxk) are not specified; strtol and isxdigit are assumed to do what C says.", design="Units: `dv/core/loader.py` (`units6`), read_hex_file and s19 once per width class. "+CORE_DESIGN)

P("C08", "Collections keep their elements in order",
  "For every collection (of any length, limit and growth step): the element at an index is the one that was put there; adding or inserting an element keeps all others in "
  "their order; removing one by index or by identity removes that one only and closes the gap; a search by identity or by key tells whether it is there and where; a sorted "
  "collection stays sorted by its key and refuses a second element of the same key when it keeps no duplicates; push, pop and top work on the last element; an index out of range yields nothing and "
  "changes nothing; no operation reads or writes outside the collection's own storage.",
  ["inputs", "histories"], "every length, limit, growth step, index, key and earlier contents",
  "Every list of the simulator (decoders, breakpoints, hardware, variables, commands) is such a collection; tests only build the short lists of start-up.",
  ["src/core/utils.src/pobj.cc", "src/core/utils.src/pobjcl.h", "src/core/utils.src/pobjt.h"],
  [("list operations", "pobj.cc cl_list"), ("sorted lists", "pobj.cc cl_sorted_list::search, add, index_of")], note=CORE_NOTE, design="Units: `dv/core/containers.py`. "+CORE_DESIGN)

P("C10", "MCS-51 timers and counters 0, 1 and 2 count as documented",
  "For every state of the timer registers and every number of machine cycles an instruction takes (0 to 2^24): a running timer counts exactly once per machine cycle, a counter exactly once per falling edge of its pin that was seen "
  "while it was running and not gated off; mode 0 counts 13 bits, mode 1 16 bits, mode 2 8 bits and reloads TL from TH at every overflow (also in the middle of a longer instruction), mode 3 makes two 8 bit timers of timer 0 "
  "(TH run by TR1, setting TF1) and stops timer 1; every overflow sets TF and is told to the partners, and nothing else is changed. The mode, GATE, C/T and TR follow TMOD and TCON whether written as a byte or bit by bit. Timer 2 follows T2CON and "
  "T2MOD in whatever order they are written: reload, capture, up/down counting, baud rate generator and clock output, with TF2, EXF2 and the reload at the count it is documented for; a falling edge on T2EX counts only while EXEN2 is set.",
  ["inputs", "histories"], "every value of the registers, every number of cycles and of edges, every write",
  "The corner counts (overflow in the middle of a longer instruction, reload value reached, edge and gate together) need exact register values and instruction lengths; no test runs a timer.",
  ["src/sims/s51.src/timer0.cc", "src/sims/s51.src/timer1.cc", "src/sims/s51.src/timer2.cc"],
  [("timers 0 and 1", "timer0.cc cl_timer0::do_mode0..3, tick, write, happen"), ("timer 2", "timer2.cc cl_timer2::do_t2_*, write, select_mode, happen")],
  note=CORE_NOTE + " The upper three bits of TL in mode 0 are not stated; the prescaling of DPTR-less derivatives (Dallas CKCON) and the UART's use of the overflows are outside.",
  design="Units: `dv/core/timers51.py`: the registers are real memory cells (their get and set are executed, not assumed); the loops over counts are under invariants: closed forms for the counters that just count, a ghost function defined count by count for the reloading modes. "+CORE_DESIGN)

P("C12", "The MCS-51 serial port takes the documented time for a frame",
  "For every state of the serial port and every length of an instruction: a byte written to SBUF goes out once, when exactly the frame of the mode selected by SM0 and SM1 (8, 10, 11 or 11 bits) has passed since the write, and TI is set then and "
  "not before; a receiver that is enabled by REN and has input delivers the byte in SBUF and sets RI after one frame, once. A bit takes 12 clocks in mode 0, 64 clocks (32 when SMOD is set) in mode 2, and 32 (16) overflows of timer 1 in modes 1 and 3, "
  "or 16 overflows of timer 2 for the direction (RCLK, TCLK) that selects it, whatever order SCON, its bits, PCON, T2CON and SBUF are written in; overflows of the timer that is not selected do not count. Reading SBUF gives the received byte, never the "
  "one being sent. Reset stops both directions and clears what SCON and PCON selected.",
  ["inputs", "histories"], "every value of the registers and counters (counters below 2^20), every instruction length, every write, every order of events",
  "The bit time depends on the history of writes to four registers and on exact counts of clocks or overflows; the tests never run a serial port.",
  ["src/sims/s51.src/serial.cc", "src/sims/s51.src/serialcl.h"],
  [("registers", "serial.cc cl_serial::write, read, init"), ("frames", "serial.cc cl_serial::tick, serial_bit_cnt, received"), ("bit time", "serial.cc cl_serial::happen, timer1.cc and timer2.cc constructors"), ("reset", "serial.cc cl_serial::reset, uc51.cc cl_51core::clear_sfr")],
  note=CORE_NOTE + " Outside the statement: TB8/RB8, the multiprocessor filter of SM2, the derivatives with several UARTs; a TI or RI set by a frame is one call of the bit cell's write.",
  design="Units: `dv/core/serial51.py`: SBUF, SCON and PCON are real memory cells; the loops that turn counted clocks into bits are under invariants with closed forms (what is left of the counter, how many bits, saturating at the frame for the transmitter). The class invariant (frame and bit time belong to mode and SMOD) is the postcondition of every write and the precondition of tick. "+CORE_DESIGN)

P("C11", "Interrupt entry saves, masks and vectors as the CPU manuals say",
  "When an interrupt is accepted, for every register and memory content: the 6502, 65C02, 6809, M6800, MC6801, M68HC11, MCS-48 and STM8 push exactly the registers of the manual in its order (the 6809 the whole state for IRQ and NMI, PC and CC for FIRQ, "
  "nothing again after CWAI or WAI; the 6502 the status with bit 5 set and B set only for BRK), set the interrupt mask of the manual (I; F too for FIRQ and NMI on the 6809; D cleared on the 65C02; I1 and I0 by level on the STM8), continue at the address in that source's vector, "
  "take the documented cycles (6502, 6809), acknowledge the source and record the level in service, and change nothing else. BRK, the SWI of the 6800 family and the STM8's TRAP save the address of the next instruction (BRK: one byte further). A maskable source is enabled exactly while its mask bit is clear; the STM8's "
  "level of each source follows ITC_SPR and its main level I1 and I0.",
  ["inputs", "histories"], "every register, flag, stack pointer, memory and vector content at the moment of acceptance",
  "No stable test takes an interrupt on any of these CPUs but the STM8; stack wrap-around, CWAI/WAI and the mask bits need exact states.",
  ["src/sims/mos6502.src/mos6502.cc", "src/sims/mos6502.src/mos65c02.cc", "src/sims/mos6502.src/inst.cc", "src/sims/m6809.src/m6809.cc", "src/core/motorola.src/m6800.cc", "src/core/motorola.src/m68hc11.cc", "src/sims/i8048.src/i8048.cc", "src/sims/stm8.src/stm8.cc"],
  [("entry", "accept_it of cl_mos6502, cl_mos65c02, cl_m6809, cl_m6800, cl_i8048, cl_stm8"), ("stacking", "m6809.cc cl_m6809::push_regs, m6800.cc cl_m6800::push_regs, m68hc11.cc cl_m68hc11::push_regs"),
   ("masks and levels", "it_enabled, priority_main, priority_of; the sources made in mk_hw_elements and make_irq_sources")],
  note=ISA_NOTE.replace("documented opcode", "interrupt entry").replace("ISA contract", "contract") + " Choosing the source is C09. The list of levels in service, the acknowledge and request of a source are contracts recorded in ghost state (proved in C08 and C09). Cycles of the 6800 family, MCS-48 and STM8, the STM8's TLI, the XIRQ mask bit X of the HC11 are outside.",
  design="Specified: `dv/cpus/irq.py`, one contract per CPU and kind of interrupt, written from the manuals: the real `accept_it` (for BRK, SWI and TRAP: the real `exec_inst` first) is executed symbolically from an arbitrary machine state through the real vtables and source objects, and must end in the contract's registers, stack, PC and cycle count, with nothing else changed. About 15 s.")

P("C09", "Interrupts are taken when, and only when, they are due",
  "For every set of interrupt sources and every state of their cells: a source is enabled and pending exactly when its masked cells have the values given for it; an interrupt is accepted exactly when a source is active, enabled and pending and its "
  "priority is above that of the interrupt being served (or it is not maskable), and then it is the first such in polling order - on the MCS-51 the first of those with the highest priority, with interrupts enabled as a whole by EA; accepting it clears its request if the "
  "source says so, goes to the source's vector, and remembers the level to come back to; idle mode ends and no other source changes. A write to a source's cell tells the processor of a request that became due and changes nothing else.",
  ["inputs", "histories"], "every number of sources, priorities, cell values and level of nesting",
  "Simultaneous requests, nesting and requests that come while one is served depend on instruction-exact timing that tests do not reach.",
  ["src/core/sim.src/itsrc.cc", "src/core/sim.src/itsrccl.h", "src/core/sim.src/uc.cc", "src/sims/s51.src/uc51.cc"],
  [("sources", "itsrc.cc cl_it_src"), ("selection", "uc.cc cl_uc::do_interrupt, uc51.cc cl_51core::do_interrupt"), ("acceptance", "uc.cc cl_uc::accept_it, uc51.cc cl_51core::accept_it")],
  note=CORE_NOTE + " Which source of several wins is stated for the common controller (polling order) and the MCS-51 (priority, then polling order); the STM8's software priorities for simultaneous requests are not stated.",
  design="Units: `dv/core/uc.py` (`units9` for the common controller, `units51` for the MCS-51). "+CORE_DESIGN)

