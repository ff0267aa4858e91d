#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the properties)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

INT = "fhevm/src/interpreter.rs"
HK = "fhevm/src/verif_hooks.rs gives read-only access to the encrypted state for decryption with the secret key"

p("E01", "One encrypted cycle executes exactly one RV32I instruction",
  "After every cycle of the encrypted VM the decrypted program counter, all 32 registers and every RAM word equal what the RV32I specification prescribes for executing the instruction at the previous program counter on the previous state. This holds for any RV32I program, ROM and RAM size, initial registers and memory, as long as the program stays inside its ROM and makes naturally aligned accesses inside its RAM. Register x0 always reads as zero.",
  ["programs", "inputs", "histories", "configurations"],
  "all RV32I programs with in-range aligned accesses, all initial registers and memory, all ROM and RAM sizes, all cycle counts within the noise budget",
  "The existing cycle test runs a few fixed one-instruction programs with hand-picked operands; the program, operand and state space is unbounded.",
  [INT, "fhevm/src/rd_update.rs", "fhevm/src/ram_update.rs", "fhevm/src/pc_update.rs", "fhevm/src/memory.rs"],
  [("cycle pipeline: fetch, registers, RAM read, register/RAM/pc update", INT + ":cycle_internal"),
   ("blind selection of the result", INT + ":update_registers, update_ram")],
  [("pc, registers, ram", "encrypted architectural state carried between cycles", INT + ":Interpreter")],
  ["decrypted state after each cycle"], HK)

p("E02", "Encrypted register-writing operations are exact for all operand values",
  "For every RV32I operation that writes a register, evaluating it on encrypted operands gives a result that decrypts to exactly the value RISC-V defines, for all operand, immediate, program-counter and loaded values. The clear-text model of these operations shipped with the system gives the same values.",
  ["inputs", "configurations"],
  "all 32-bit operand pairs, immediates, shift amounts, pc values and loaded words of each operation, any thread count",
  "Tests evaluate each operation on a handful of operands; each has 2^64 operand pairs.",
  ["fhevm/src/rd_update.rs", "fhevm/src/instructions/r_type.rs", "fhevm/src/instructions/i_type.rs", "fhevm/src/instructions/mod.rs"],
  [("operation dispatch and evaluation", "fhevm/src/rd_update.rs:eval_enc"), ("plaintext model", "fhevm/src/instructions/mod.rs:RD_UPDATE::eval_plain")],
  observe=["decrypted result of each evaluation"], hook=HK)

p("E03", "Encrypted loads and stores move exactly the addressed bytes",
  "A load of a byte, half-word or word from any naturally aligned address in RAM yields the addressed bytes with the sign or zero extension the instruction specifies, and a store changes exactly the addressed bytes and nothing else. This holds for every address, byte offset, stored value, previous memory content and RAM size.",
  ["inputs", "programs", "configurations"],
  "all aligned addresses and byte offsets, all values and previous contents, all RAM sizes and thread counts",
  "Tests touch few addresses and mostly byte offset 0; sub-word behaviour depends on address bits, data sign and the neighbouring bytes.",
  [INT, "fhevm/src/ram_update.rs", "fhevm/src/rd_update.rs"],
  [("RAM read and sub-word selection", INT + ":read_ram, update_registers"), ("store merge", "fhevm/src/ram_update.rs:eval_enc"), ("write-back", INT + ":update_ram")],
  observe=["decrypted RAM and destination register after each access"], hook=HK)

p("E04", "Encrypted memory behaves like an array under any history",
  "Under any history of reads, read-then-write-back and clears at encrypted addresses, each read returns the last value written to that word and every other word keeps its value. This holds for every memory size, including sizes that span several ciphertexts or are not powers of two, and every thread count.",
  ["histories", "inputs", "configurations"],
  "all histories of operations and addresses, all sizes, all thread counts",
  "The memory test runs one write-read pair per position for one size; state left behind by one operation (the rotated, partially selected tree) affects the next.",
  ["fhevm/src/memory.rs"],
  [("read, write-back and reversal of the selection tree", "fhevm/src/memory.rs:read_stateless, read_statefull, read_statefull_rev, write, zero")],
  [("memory words", "packed ciphertexts holding bit slices of the words", "fhevm/src/memory.rs:Memory")],
  ["decrypted memory after every operation"], "Memory wrapper in verif_hooks")

p("E05", "The next program counter is right for every branch, jump and operand",
  "For every control-flow operation and every program counter, immediate and operand pair, the encrypted next program counter decrypts to the value RISC-V defines: sequential, taken or not-taken branch target, direct jump, or indirect jump with the lowest bit cleared.",
  ["inputs", "configurations"],
  "all values of pc, operands and immediate for each of the eight next-pc selectors, all thread counts",
  "Tests sample a few operand relations per operation; the decision diagrams have thousands of edges that each need particular inputs.",
  ["fhevm/src/pc_update.rs", "fhevm/src/codegen/codegen_pc_update.rs", INT],
  [("decision diagrams for the next pc", "fhevm/src/codegen/codegen_pc_update.rs"), ("evaluation", "fhevm/src/pc_update.rs:update_pc")],
  observe=["diagram output for each driven input; decrypted next pc"], hook="walks the generated diagrams through verif_hooks")

p("E06", "Effective, link and upper-immediate values are exact for all operands",
  "The encrypted effective address of loads and stores, the return address of jumps and the results of the upper-immediate operations decrypt to exactly the 32-bit values RISC-V defines for every base register, immediate and program counter, including wrap-around.",
  ["inputs", "configurations"],
  "all 32-bit base, immediate and pc values, all thread counts",
  "Tests sample few values; carries have to propagate through every bit position.",
  ["fhevm/src/ram_offset.rs", "fhevm/src/codegen/codegen_ram_offset.rs", "fhevm/src/codegen/codegen_lui.rs", "fhevm/src/codegen/codegen_auipc.rs", "fhevm/src/codegen/codegen_jalr.rs"],
  [("address diagrams", "fhevm/src/codegen/codegen_ram_offset.rs"), ("evaluation", "fhevm/src/ram_offset.rs:ram_offset")],
  observe=["diagram output for each driven input; decrypted values"], hook="walks the generated diagrams through verif_hooks")

p("E07", "Results do not depend on the number of worker threads or scheduling",
  "Running the same encrypted program from the same ciphertexts gives bit-identical encrypted state after every cycle for every worker-thread count (of at least one) and every scheduling of the workers. No thread count makes execution fail or gives a wrong result.",
  ["schedules", "configurations", "programs"],
  "all thread counts (including more threads than work items and than cores), all interleavings of the workers, all programs",
  "Tests use one thread count and one machine load, and never compare runs with each other.",
  [INT, "fhevm/src/prepare.rs", "fhevm/src/memory.rs", "fhevm/src/rd_update.rs"],
  [("per-thread scratch partition and chunking", "fhevm/src/prepare.rs:prepare_multiple_fheuint; fhevm/src/memory.rs (threads parameters)")],
  observe=["all state ciphertexts after every cycle"], hook="ciphertext bytes through verif_hooks")

p("E08", "Noise stays inside the decoding margin for hundreds of cycles",
  "With the production parameters, the noise of every ciphertext of the encrypted state stays inside the margin that decryption and bootstrapping need, after each of up to a few hundred cycles of any program, so that bootstrapping a correct bit practically never yields a wrong one. Values that are recomputed each cycle have a noise level that does not grow with the number of cycles, and carried state grows no faster than the square root of the cycle count.",
  ["programs", "histories"],
  "all programs and inputs, every cycle of executions of up to a few hundred cycles, all ciphertexts of the state",
  "Tests run a few cycles and only look at decrypted values, which stay right until the margin is used up.",
  ["fhevm/src/parameters.rs", "fhevm/src/keys.rs", INT, "fhevm/src/memory.rs"],
  [("parameter set", "fhevm/src/parameters.rs"), ("refresh of operands by circuit bootstrapping", "fhevm/src/prepare.rs, " + INT)],
  observe=["noise of each state ciphertext after each cycle", "error of bits at the input of bootstrapping"], hook="noise measurement through verif_hooks")

p("E09", "Debug mode is transparent and sound",
  "Running a cycle in debug mode changes the encrypted state exactly as a normal cycle does and never objects to a correct execution. It objects whenever the encrypted program counter, a register or a RAM word differs from the clear-text execution it shadows, and that shadow follows RV32I for every program.",
  ["programs", "inputs", "fault_sequences"],
  "all programs and states, every divergence of the pc, any register or any RAM word",
  "Tests run debug mode on a few correct cycles; they never check that it leaves the state alone nor that it detects divergence.",
  ["fhevm/src/debug.rs", INT],
  [("clear-text mirror", "fhevm/src/debug.rs:InterpreterDebug"), ("comparison after each stage", INT + ":cycle_debug and the DEBUG branches")],
  observe=["ciphertexts of a debug and a plain VM; objections after tampering"], hook="tampering and mirror access through verif_hooks")

p("E10", "Every encryption uses fresh randomness and only the right key decrypts",
  "No two ciphertexts that a client produces share masks or randomness, even for equal plaintexts within one program, across memories or across repeated encryptions, and two VMs do not share keys or randomness. Secret keys are random with the prescribed (ternary) distribution, and evaluation keys too have random masks and errors at the prescribed level. Each fresh ciphertext has a random mask and noise at the level the parameters prescribe, decrypts to what was encrypted under its key, and gives unrelated bits under any other key.",
  ["inputs", "histories", "configurations"],
  "all programs and data (equal data being the worst case), all pairs of ciphertexts, all keys",
  "Tests only decrypt what they encrypt with the right key; reuse of randomness is invisible to them.",
  [INT, "fhevm/src/memory.rs", "fhevm/src/keys.rs", "compiler/src/interpreter.rs"],
  [("encryption of ROM, registers and RAM", INT + ":instructions_encrypt_sk, ram_encrypt_sk, init_registers"), ("key and seed generation", "compiler/src/interpreter.rs:encrypted_vm")],
  observe=["ciphertext bytes, fresh noise, wrong-key decryptions"], hook="ciphertext bytes through verif_hooks")

p("E11", "Results do not depend on stale working memory or on earlier contents of results",
  "Encrypting a program, data or registers, evaluating any encrypted operation, reading and writing encrypted memory, executing cycles (in normal and debug mode), decrypting and measuring noise give the same ciphertexts bit for bit and the same values whatever the scratch buffer passed in holds beforehand, however much larger than necessary it is, and whatever the result ciphertexts, the output buffers and the VM being filled held before.",
  ["inputs", "histories", "configurations"],
  "all contents and sufficient sizes of the scratch buffer, all previous contents of results, all programs, sizes and thread counts",
  "Tests start from freshly zeroed buffers, so a temporary that is used before it is initialised, or an accumulator that is never cleared, looks right.",
  [INT, "fhevm/src/memory.rs", "fhevm/src/rd_update.rs", "fhevm/src/ram_update.rs", "fhevm/src/pc_update.rs", "fhevm/src/prepare.rs"],
  [("temporaries taken from scratch", "fhevm/src/memory.rs (take_glwe, take_slice), fhevm/src/rd_update.rs, fhevm/src/ram_update.rs"), ("per-thread scratch partition", "fhevm/src/prepare.rs, fhevm/src/memory.rs")],
  observe=["all state ciphertexts after every call, under several scratch contents"], hook="ciphertext bytes through verif_hooks")

p("M01", "Execution is free of memory errors and data races",
  "Creating keys, encrypting and decrypting programs and data of any size, evaluating encrypted operations and memories, running cycles with any number of worker threads (several VMs at once with shared keys included), and loading and running executables, malformed ones included, never reads or writes outside live memory, and no worker accesses memory that another one is modifying without synchronisation between them.",
  ["inputs", "schedules", "configurations"],
  "all sizes, thread counts, schedules, programs and executables",
  "An access beyond a buffer or a race between workers usually leaves the tested results intact; it shows for other sizes, thread counts or schedules, or only as a rare wrong value.",
  [INT, "fhevm/src/memory.rs", "fhevm/src/prepare.rs", "fhevm/src/rd_update.rs", "compiler/src/interpreter.rs", "compiler/src/interpreter/testvm.rs"],
  [("per-thread scratch partition and chunking", "fhevm/src/memory.rs, fhevm/src/prepare.rs"), ("buffers sized from memory and program sizes", "fhevm/src/memory.rs:BitArray"), ("loading", "compiler/src/interpreter.rs:Phantom::from_elf")],
  observe=["every memory access of the instrumented build (AddressSanitizer, ThreadSanitizer)"], hook="drives memories and units through verif_hooks")

p("D01", "Every 32-bit word is decoded as RV32IM defines or refused",
  "Decoding any 32-bit word that RV32IM defines gives the operation, registers and immediate of the specification, words of the system opcode select no operation, and words of any other opcode (the memory-ordering opcode included) or with undefined function codes are refused instead of being executed as something else.",
  ["inputs"],
  "all 2^32 instruction words",
  "Tests decode a few hand-assembled words per format.",
  ["fhevm/src/instructions/mod.rs", "fhevm/src/instructions/b_type.rs", "fhevm/src/instructions/i_type.rs", "fhevm/src/instructions/j_type.rs", "fhevm/src/instructions/r_type.rs", "fhevm/src/instructions/s_type.rs", "fhevm/src/instructions/u_type.rs"],
  [("field extraction and classification", "fhevm/src/instructions/mod.rs:Instruction")],
  observe=["decoded fields and selectors of each word"], hook="selector names through verif_hooks")

p("D02", "Encrypted fetch yields the fields of the instruction at the pc",
  "After a program is encrypted, every instruction slot holds exactly that instruction's fields, and a cycle that starts with the program counter on a slot fetches the fields of that slot and no other. This holds for every program, every program size and every slot, including programs shorter than the ROM.",
  ["programs", "configurations"],
  "all programs, ROM sizes and slots",
  "Tests fetch from tiny programs at small addresses with one ROM size.",
  [INT, "fhevm/src/memory.rs"],
  [("instruction ROMs", INT + ":instructions_encrypt_sk"), ("fetch", INT + ":read_and_prepare_instruction_components")],
  observe=["decrypted ROM contents and fetched fields"], hook=HK)

p("D03", "What the encrypted VM cannot hold or execute is refused, the rest is accepted",
  "A program that contains an instruction the encrypted VM does not implement (the multiplications and divisions of RV32M) or that is longer than the instruction memory, register or memory contents longer than what they are loaded into, requests to decrypt more than a memory holds, and executables that are cut off, lack a text segment or a tape section, do not have their text at address 0 or have less of it in the file than in memory, or whose data does not fit the 4 KB of RAM are refused, never truncated, ignored or executed as something else. Everything that fits is accepted and reads back unchanged, followed by zeros.",
  ["inputs", "programs", "configurations"],
  "all programs, data lengths, memory sizes and malformed executables, with and without debugging",
  "Tests only offer programs and data that fit exactly.",
  [INT, "fhevm/src/memory.rs", "compiler/src/interpreter.rs"],
  [("capacity and instruction checks at encryption", INT + ":instructions_encrypt_sk, init_registers, ram_encrypt_sk; fhevm/src/memory.rs:encrypt_sk, decrypt"), ("checks of the loader", "compiler/src/interpreter.rs:Phantom::from_elf")],
  observe=["acceptance or refusal of each offer, decrypted contents of what was accepted"], hook="decryption through verif_hooks")

p("T01", "The plaintext VM executes RV32IM exactly and never aborts",
  "The plaintext reference VM executes every RV32IM instruction exactly as the specification defines, for all operand values including division by zero, overflow and wrap-around, without aborting, as long as the program stays inside its ROM and makes naturally aligned accesses inside its RAM. A run executes exactly as many instructions as its cycle limit.",
  ["programs", "inputs"],
  "all RV32IM programs with in-range aligned accesses, all register and memory contents, all cycle limits",
  "It has no tests of its own; guests exercise only the instructions the compiler happened to emit.",
  ["compiler/src/interpreter/testvm.rs"],
  [("instruction interpreter", "compiler/src/interpreter/testvm.rs:TestVM::execute")],
  [("pc, registers, ram", "architectural state", "compiler/src/interpreter/testvm.rs:TestVM")],
  ["state after every step"], "state access through cfg(verif_hooks) accessors of TestVM")

p("T02", "Loading an executable reproduces its memory image and tape windows",
  "For every executable laid out as the linker script produces them, loading gives a boot ROM equal to the text segment, a boot RAM that holds every initialised data byte at its address and zero everywhere else, and the input and output windows the executable declares.",
  ["inputs", "programs"],
  "all segment counts, sizes, gaps and zero-initialised tails, section orders and file layouts within 4 KB of RAM",
  "Tests load at most the executables of a few guests, all of the same shape.",
  ["compiler/src/interpreter.rs", "compiler/linker-script/default.x"],
  [("ELF loading", "compiler/src/interpreter.rs:Phantom::from_elf")],
  observe=["boot_rom, boot_ram, input_info, output_info"])

p("T03", "Input and output tapes map exactly to their windows",
  "The bytes given as input appear at the input window of RAM and nowhere else, the rest of RAM is the boot image, and the output is exactly the output window, for the plaintext and the encrypted VM alike. A tape of the wrong length is refused, and VMs made from one program do not influence each other.",
  ["inputs", "programs", "histories"],
  "all window positions and sizes, all tape contents and boot images",
  "Tests use one window layout and compare a few output fields.",
  ["compiler/src/interpreter.rs", "compiler/src/interpreter/testvm.rs"],
  [("tape placement", "compiler/src/interpreter.rs:encrypted_vm; testvm.rs:read_input_tape"), ("tape extraction", "compiler/src/interpreter.rs:output_tape; testvm.rs:output_tape")],
  observe=["RAM after reading the tape, output tape"], hook="RAM access through cfg(verif_hooks) accessors")

p("T04", "The encrypted VM outputs what the plaintext VM outputs",
  "For every RV32I program, input tape and cycle count, running the program on the encrypted VM and on the plaintext VM through the public interface gives the same output tape, which is the one RISC-V defines. Thread count, debug and timing settings do not change it, and running in several calls equals running the same number of cycles in one.",
  ["programs", "inputs", "configurations", "histories"],
  "all programs, inputs, cycle counts and environment settings",
  "No test runs a program through the public encrypted interface; the examples do so for one guest each and take too long for a test suite.",
  ["compiler/src/interpreter.rs", "compiler/src/interpreter/testvm.rs", INT],
  [("set-up, execution and output of the encrypted VM", "compiler/src/interpreter.rs:encrypted_vm, EncryptedVM::execute, output_tape")],
  observe=["output tapes and decrypted final state"], hook="EncryptedVM parts through cfg(verif_hooks)")

p("G01", "Guest heap blocks are aligned, disjoint, in bounds and keep their contents",
  "Whatever sequence of allocations, reallocations and frees of any sizes and alignments a guest performs, every block the runtime's heap hands out is aligned as requested, overlaps no live block, no static and no stack in use, keeps its contents until freed, and is zero when requested zeroed. When the heap and the stack would come too close the guest stops instead of continuing with overlapping memory, and requests that fit are granted.",
  ["histories", "inputs"],
  "all sequences of heap requests, all sizes, alignments and stack depths",
  "The allocator has no tests; guests that use it check only their own results, not addresses or overlap.",
  ["runtime/src/alloc.rs", "runtime/src/lib.rs", "compiler/linker-script/default.x"],
  [("bump allocator and stack guard", "runtime/src/alloc.rs"), ("end of statics", "compiler/linker-script/default.x")],
  observe=["addresses and contents of every block, from inside a guest"])

p("G02", "Guests built for the VM compute what the same Rust computes natively",
  "A guest compiled by the build step with the runtime, macros and linker script, loaded and run on any input, produces exactly the output that the same computation produces natively: control flow, integer and soft-float arithmetic, memory intrinsics, statics of all kinds, heap collections and dynamic dispatch included. It does so on the plaintext VM and on the encrypted VM.",
  ["programs", "inputs"],
  "all guests and all inputs",
  "Tests do not run guests; the examples run one input each.",
  ["runtime/src/lib.rs", "runtime/src/alloc.rs", "macros/src/lib.rs", "compiler/src/lib.rs", "compiler/linker-script/default.x", "compiler/src/interpreter.rs", "compiler/src/interpreter/testvm.rs"],
  [("start-up code and tapes", "runtime/src/lib.rs, macros/src/lib.rs"), ("layout", "compiler/linker-script/default.x"), ("loading and execution", "compiler/src/interpreter.rs, testvm.rs")],
  observe=["output tapes of guests and of native runs"])

p("B01", "The build step returns the executable just built or reports failure",
  "Building a guest returns the bytes of the executable that this build produced, from the guest, features and layout requested. When the compiler fails, is killed, cannot be started or produces nothing, the build step reports the failure and never returns an executable left from an earlier build; it does not hang whatever the compiler prints.",
  ["fault_sequences", "inputs", "histories"],
  "all outcomes of the compiler run, all earlier contents of the output directory, all option values",
  "Tests never invoke the build step, let alone with a failing compiler.",
  ["compiler/src/lib.rs"],
  [("running cargo and collecting the result", "compiler/src/lib.rs:CompileOpts::build")],
  observe=["arguments the compiler receives, returned bytes, reported failures"])

p("C01", "Documented settings take effect and printed timings are true",
  "An encrypted VM made through the public interface uses as many worker threads as PHANTOM_THREADS says (one default number when it is absent or not a number), prints debug information exactly when PHANTOM_DEBUG is 1 or true, and prints a timing breakdown of each executed cycle exactly when PHANTOM_VERBOSE_TIMINGS is 1 or true, in any case of letters; any other value means off, and with both off execution prints nothing to standard output. In a breakdown every step takes some time (the program counter's preparation in the very first cycle excepted), the steps of a phase take no longer than the phase, the phases make up the cycle and take no longer than it, and the cycles take no longer than the call.",
  ["inputs", "configurations"],
  "all values of the three settings, all programs and numbers of cycles and calls",
  "No test sets an environment variable or looks at what is printed.",
  ["compiler/src/interpreter.rs", "fhevm/src/interpreter.rs", "fhevm/src/measurements.rs"],
  [("reading the settings", "compiler/src/interpreter.rs:Phantom::encrypted_vm"), ("timings", "fhevm/src/interpreter.rs:cycle, print_timings"), ("records", "fhevm/src/measurements.rs")],
  observe=["standard output, worker threads and duration of runs"])

p("S02", "Ciphertexts reveal nothing about program or data",
  "Without the secret key no efficient party can learn anything about an encrypted program, its inputs or its state beyond their sizes and the number of cycles.",
  ["inputs", "programs"], "all programs, inputs and efficient adversaries",
  "A statement about all adversaries; tests can only decrypt with the right key.",
  ["fhevm/src/parameters.rs", "fhevm/src/keys.rs", "compiler/src/interpreter.rs"],
  [("parameter choice", "fhevm/src/parameters.rs"), ("key generation", "fhevm/src/keys.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
