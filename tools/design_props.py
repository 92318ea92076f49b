T = {}
T["C01"] = """Oracle: an unbounded-list model with committed/uncommitted positions on both sides, kept as symbolic pointers over an array of the written data. Checked in every cycle: read data, empty, full, free space."""
T["C02"] = """Oracle: the frame (start, data, parity computed by definition, stop) sampled in every cycle of every bit, from the cycle after acceptance; idle level in all others; ready exactly between frames."""
T["C03"] = """Oracle: the harness is a line driver that builds frames cycle by cycle from symbolic data, parity and stop bits (also with noise away from the middle of the bits), and demands data, error flags and their cycle window. Loop back with the transmitter compares with the words accepted."""
T["C04"] = """Oracle: a bus monitor (start, stop, bits at rising clock, data stable while the clock is high) plus a symbolic peer that acknowledges, sends data and stretches the clock; the monitor's record must equal the script of commands."""
T["C05"] = """Oracle: a bus master driving arbitrary addresses and octets, in sequences of transactions, including unfinished ones; the target's drive of the bus in each cycle, its octets, and its start/stop/restart reports must be those the addressed device owes."""
T["C06"] = """Oracle: bus monitor as in C04; the record must be start, the octets of the packet, stop, for each packet, whatever pauses the producer makes and whatever the receiver acknowledges."""
T["C07"] = """Oracle: an SPI host of the given mode with jittering clock; per word the bits it sampled must be the word offered, the word delivered must be the bits it sent, one completion strobe per word, and none for partial words."""
T["C08"] = """Oracle: an SPI device of the given mode watching the controller's pins edge by edge; both words symbolic, back-to-back and spaced starts, clock idle outside of transfers."""
T["C09"] = """Oracle: a register file model; transactions with symbolic write flag, address and value, complete, aborted after any listed number of bits, or with surplus clocks."""
T["C10"] = """Oracle: the definition, combinational, every pin value."""
T["C11"] = """Oracle: a receiver at the pins for both formats (standard: one bit clock after the word clock edge, left justified: with it), most significant bit first, word clocks with regular and irregular slots and bit clocks, samples of 8 to 32 bits including slots exactly as long as the samples; what it collects must be the accepted samples by channel, or silence with the underflow flag."""
T["C12"] = """Oracle: a transmitter for both formats as the harness; delivered words, channel marks (first = left), order, also when the consumer stalls; loop back of C11 into C12."""
T["C13"] = """Oracle: a model of the chip (16 bit shift register per module, latch at the end of a frame) and of the register contents it must hold after initialisation and each refresh."""
T["C14"] = """Oracle: the standard glyphs written down independently, and the definition of the bar (element i is lit when the value reaches its threshold)."""
T["C15"] = """Oracle: the data sheet's times in nanoseconds converted with the clock frequency; the colours in GRB order."""
T["C16"] = """Oracle: debounce contract: a level held for fewer than 2^14 cycles changes nothing, a level held for 2^16 is taken, in between either; one edge per press."""
T["C17"] = """Oracle: field by field equality; for FIFOs a queue model with symbolic occupancy."""
T["C18"] = """Oracle: a grant model (lowest index first, kept until the granted stream's valid falls, then free), all fields."""
T["C19"] = """Oracle: for the symbolic start position and length, the words, octet enables and framing computed from the constant data."""
T["C20"] = """Oracle: the list of symbolic values, position model with framing."""
T["C21"] = """Oracle: the list of packets."""
T["C22"] = """Oracle: the frame model of C02 on the line, in every cycle, with the accepted words as data; the peripheral's bus writes likewise."""
T["C23"] = """Oracle: the taps computed from the same design call of scipy, independent exact integer arithmetic with a floor per product; linear normal form makes obligations for all samples decidable at once."""
T["C24"] = """Oracle: as C23 with the recurrence over symbolic past outputs."""
T["C25"] = """Oracle: as C23, the half band structure written as a plain convolution with every second output kept."""
T["C26"] = """Oracle: boxcar sums of the one bit samples in unbounded integers, scaled; exact equality, modulo nothing except the known finding."""
T["C27"] = """Oracle: two or three single filters in series, built by the harness."""
T["C28"] = """Oracle: zero stuffing, the designed filter, keeping every n-th word; words counted as delivered, with the schedule of either side symbolic (data given) or data symbolic (schedules given)."""
T["C29"] = """Oracle: the windowed radix-2 transform in the core's fixed point arithmetic, written as an independent recursive definition; order and one strobe per value checked."""
T["C30"] = """Oracle: the defining sums of the three modes in unbounded integers."""
T["C31"] = """Oracle: history of probe values; capture model per cycle."""
T["C32"] = """Oracle: the captured history; on the stream, on the serial line through a UART receiver model and the real host frontend, and on SPI through the host of C07; the waveform file through a recording writer."""
T["C33"] = """Oracle: the event definitions (level, rise, fall) and write-one-to-clear, per cycle."""
T["C34"] = """Oracle: an array updated lane by lane; wishbone classic handshake per cycle."""
T["C35"] = """Oracle: queue models between registers and line; frames as in C02/C03."""
T["C36"] = """Oracle: bit lists as terms, executed with pysym."""
T["C37"] = """Oracle: a countdown defined by the documentation, in every cycle."""
T["C38"] = """Oracle: the bit list; one step from every register value (inductive) and sequences from reset."""
T["C39"] = """Oracle: comparison with the value one cycle earlier in the named domain."""
T["C40"] = """Oracle: delayed history; for the stretcher the or of the last n strobes."""
T["C41"] = """Oracle: the definitions, per cycle."""
T["C42"] = """Oracle: the polynomial; one step from every register value, injectivity and nonzero invariance as solver queries (inductive, so for histories of any length)."""
T["C43"] = """Oracle: polynomial remainders computed digit by digit (x^k mod generator), with the published parameters; executed with pysym."""
T["C44"] = """Oracle: for a symbolic address, the register or window the memory map has there (its strobes, data, and those of nobody else), the requested addresses and alignments, and the event registers as in C33. amaranth_soc's multiplexer, bridge and decoder are stand-ins that behave as documented (props/stubs.py)."""
T["C45"] = """Oracle: a flat model of the address space with the memories' contents; two symbolic bus masters in place of the processor; the generated C header, linker script and resource list are parsed and must agree with the bus. amaranth_soc and lambdasoc parts are stand-ins (props/stubs.py); the BIOS is not covered."""
