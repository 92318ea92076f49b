prop("C01", "Transactionalised FIFO: no loss, reorder or early exposure of data",
     "Readers see exactly the committed writes, in order, and rewinding the reader re-delivers every entry read since the last read commit. "
     "Discarded writes are never observable, and full, empty and the free-space count always describe the entries held, uncommitted ones included.",
     ["histories", "inputs"], "every interleaving of write, read, commit and discard on both sides, every datum, every depth",
     "the test drives one fixed sequence at one depth; wrap-around combined with rewind and discard is a matter of history",
     ["amlib/utils/fifo.py"], [("TransactionalizedFIFO.elaborate", "amlib/utils/fifo.py")],
     observe=["read_data", "empty", "full", "space_available"])
prop("C02", "A serial transmitter sends every accepted word as one well-formed frame",
     "Each word accepted by a serial transmitter appears on the line as start bit, data bits least significant first, the selected parity bit and the stop bit, every bit lasting exactly the programmed divisor. "
     "The line idles high, words are accepted only when the transmitter says it is ready, and no accepted word is lost, altered or duplicated.",
     ["inputs", "schedules", "configurations"], "every data word, every gap between words, every parity mode and data width, any supported divisor",
     "tests send a single constant through one parity at one divisor",
     ["amlib/io/serial.py"], [("AsyncSerialTX.elaborate", "amlib/io/serial.py"), ("_compute_parity_bit", "amlib/io/serial.py")])
prop("C03", "A serial receiver delivers every well-formed frame and flags every malformed one",
     "A receiver delivers each frame sent at its divisor exactly once with the right data, and raises the frame, parity and overflow errors exactly when the stop bit, the parity bit or the consumer was at fault. "
     "What a transmitter sends is what a receiver with the same settings reports.",
     ["inputs", "schedules", "configurations"], "every data word, bit pattern of the frame, idle gap and consumer delay; every parity mode",
     "tests cover one word per parity and a single error case each",
     ["amlib/io/serial.py"], [("AsyncSerialRX.elaborate", "amlib/io/serial.py"), ("AsyncSerial.elaborate", "amlib/io/serial.py")])
prop("C04", "The I2C initiator puts exactly the requested conditions and bits on the bus",
     "For any sequence of start, write, read and stop requests the bus carries exactly those conditions and bits, data changing only while the clock is low. "
     "Clock stretching by a target is honoured, the acknowledge seen or sent is the right one, and read octets are returned unaltered.",
     ["inputs", "schedules", "histories"], "every octet, acknowledge and clock-stretch delay over bounded command sequences",
     "tests use fixed octets and one stretch delay; timing collisions between strobes and the end of a command are never exercised",
     ["amlib/io/i2c.py"], [("I2CInitiator.elaborate", "amlib/io/i2c.py"), ("I2CBus.elaborate", "amlib/io/i2c.py")])
prop("C05", "The I2C target answers exactly its own address and transfers octets intact",
     "A target acknowledges exactly the transactions carrying its own address, delivers each written octet once and sends each read octet bit-exactly. "
     "It never drives the bus in a transaction addressed to somebody else, and it reports the end of a transaction exactly once.",
     ["inputs", "schedules"], "every address, octet and acknowledge; stop or repeated start at the end",
     "tests use one address and fixed octets",
     ["amlib/io/i2c.py"], [("I2CTarget.elaborate", "amlib/io/i2c.py")])
prop("C06", "The I2C stream transmitter sends each packet as one bus transaction",
     "Every packet becomes one start condition, its octets in order and one stop condition; no octet is lost, repeated or invented whatever the timing of the stream. "
     "A pause of the producer inside a packet delays the bus and changes nothing on it.",
     ["inputs", "schedules"], "every packet content, packet boundary and producer pause within the bounds",
     "the test feeds a single packet without a pause",
     ["amlib/stream/i2c.py", "amlib/io/i2c.py"], [("I2CStreamTransmitter.elaborate", "amlib/stream/i2c.py")])
prop("C07", "The SPI device shifts words in and out intact in every mode and word size",
     "Each word clocked in by a host is delivered exactly once, bit-exact and aligned, and each word offered for transmission appears on the wire bit-exact, in all clock polarities, phases, bit orders and word sizes. "
     "Deselecting the chip resets the framing; nothing happens while it is not selected.",
     ["inputs", "schedules", "configurations"], "every word, host clock jitter, CPOL/CPHA/bit order/chip select polarity, word sizes including non powers of two",
     "tests use one mode, one word and a fixed clock",
     ["amlib/io/spi.py"], [("SPIDeviceInterface.elaborate", "amlib/io/spi.py")])
prop("C08", "The SPI controller exchanges words bit-exactly with a device of the same mode",
     "Every word handed to the controller reaches the device bit-exact and the word the device sends is returned unaltered, for each supported phase, divisor, bit order and word size. "
     "Back-to-back transfers lose nothing, and the clock is idle when no transfer is running.",
     ["inputs", "configurations", "histories"], "every word and device answer; phases, divisors and word sizes; back-to-back starts",
     "the test drives one word through one mode",
     ["amlib/io/spi.py"], [("SPIControllerInterface.elaborate", "amlib/io/spi.py")])
prop("C09", "SPI register interfaces read and write exactly the addressed register",
     "A write transaction changes exactly the addressed register to the value sent, a read returns the addressed register's value and changes nothing, and strobes appear exactly once per transaction. "
     "Aborted transactions have no effect on any register.",
     ["inputs", "histories"], "every command word, value, register content and abort point",
     "tests use fixed addresses and values and never abort a transaction",
     ["amlib/io/spi.py"], [("SPIRegisterInterface.elaborate", "amlib/io/spi.py"), ("SPICommandInterface.elaborate", "amlib/io/spi.py")])
prop("C10", "The SPI multiplexer connects the host to exactly the selected device",
     "The host's answer line carries the selected device's data and nobody else's, and every device sees the host's clock, data and its own chip select.",
     ["inputs", "configurations"], "every pin combination and device count",
     "there is no test",
     ["amlib/io/spi.py"], [("SPIMultiplexer.elaborate", "amlib/io/spi.py")])
prop("C11", "The I2S transmitter puts each stereo frame on the wire bit-exactly",
     "Left and right samples accepted from the stream appear on the wire in order, in their own half of the word clock, most significant bit first at the position the selected frame format prescribes, with nothing lost or doubled whatever the producer's timing. "
     "Underflow sends silence and is flagged.",
     ["inputs", "schedules", "configurations"], "every sample value, producer timing and frame format; supported sample widths",
     "tests send a ramp through one configuration",
     ["amlib/io/i2s.py"], [("I2STransmitter.elaborate", "amlib/io/i2s.py")])
prop("C12", "The I2S receiver recovers exactly the samples on the wire, channels in place",
     "Each sample on the wire is delivered once, bit-exact, marked with its own channel, in order; what the transmitter sends over a shared clock is what the receiver delivers.",
     ["inputs", "schedules", "configurations"], "every sample value, both formats, consumer timing",
     "tests use one recorded wave form",
     ["amlib/io/i2s.py"], [("I2SReceiver.elaborate", "amlib/io/i2s.py"), ("I2SLoopback.elaborate", "amlib/io/i2s.py")])
prop("C13", "The MAX7219 driver initialises every module and keeps all digits refreshed",
     "Every module of the chain receives the complete initialisation and afterwards, round after round, each digit register with the value last loaded, in frames of exactly sixteen bits per module with data stable around the sampling edge.",
     ["inputs", "histories", "configurations"], "every digit value and replacement, chain lengths, divisors and initialisation lengths",
     "the test watches a single frame",
     ["amlib/io/max7219.py", "amlib/io/led.py"], [("SerialLEDArray.elaborate", "amlib/io/max7219.py")])
prop("C14", "Seven segment and bar displays light exactly the elements for the number shown",
     "Every hexadecimal digit lights the segments of its standard glyph on its own display, and a bar of n elements lights exactly the elements the number reaches in its range.",
     ["inputs", "configurations"], "every number, display count, range and bar length",
     "the tests look at a few values and none of them compares the glyph",
     ["amlib/io/led.py"], [("NumberToSevenSegmentHex.elaborate", "amlib/io/led.py"), ("NumberToBitBar.elaborate", "amlib/io/led.py")])
prop("C15", "The WS2812 driver sends each LED's colour with bit timings inside the datasheet",
     "For any colours, each refresh sends 24 bits per LED in order, green first, with high and low times within the datasheet's tolerance, followed by a low period long enough to latch.",
     ["inputs", "configurations"], "every colour, LED count and clock frequency within bounds",
     "the test prints a wave form and checks nothing",
     ["amlib/io/ws2812.py"], [("WS2812.elaborate", "amlib/io/ws2812.py")])
prop("C16", "The debouncer reports one clean edge per real press and ignores shorter glitches",
     "The output changes only after the input has held the new level for the debounce time, it does change then, and no sequence of shorter bounces ever changes it.",
     ["inputs", "schedules"], "every input wave form within the bound",
     "the test replays one bounce pattern",
     ["amlib/io/debouncer.py"], [("Debouncer.elaborate", "amlib/io/debouncer.py")])
prop("C17", "Stream connections carry every field, framing bit and handshake unaltered",
     "Connecting, tapping or omitting fields carries exactly the requested fields forward and ready back. "
     "Passing a stream through a first-in first-out buffer delivers exactly the accepted words, in order, with their first and last marks.",
     ["inputs", "schedules", "configurations"], "every field value, every pattern of valid and ready, several payload layouts",
     "there is no test of these connections",
     ["amlib/stream/__init__.py"], [("StreamInterface", "amlib/stream/__init__.py"), ("connect_fifo_to_stream", "amlib/stream/__init__.py")])
prop("C18", "The stream arbiter and multiplexer forward one stream at a time, unaltered",
     "The multiplexer output shows the fields of a stream that is valid and nothing while none is. "
     "The arbiter grants the highest priority stream when it is free, keeps the grant until that stream goes idle, and every word of the granted stream reaches the output unaltered, while streams without the grant are never told ready.",
     ["inputs", "schedules"], "every field value of every stream and every pattern of valid and ready within the bound",
     "there is no test of overlapping streams or of back pressure",
     ["amlib/stream/arbiter.py"], [("StreamArbiter.elaborate", "amlib/stream/arbiter.py"), ("StreamMultiplexer.elaborate", "amlib/stream/arbiter.py")])
prop("C19", "The constant generator sends exactly the selected part of its data",
     "After start the generator sends its constant data once, from the requested start position, at most the requested length, in the requested byte order, with first and last on exactly the first and last word and only the meaningful octets marked valid. "
     "Back pressure delays words and changes nothing.",
     ["inputs", "schedules", "configurations"], "every start position, maximum length, pattern of start and ready; data lengths that do and do not fill the last word",
     "tests use one data string, one length limit and few stalls",
     ["amlib/stream/generator.py"], [("ConstantStreamGenerator.elaborate", "amlib/stream/generator.py")])
prop("C20", "The stream serializer sends its array of values in order, once per start",
     "After start the serializer sends its input values in order, at most the requested number, first and last marking exactly the first and last, and reports done once. "
     "Back pressure delays values and changes nothing.",
     ["inputs", "schedules", "configurations"], "every value, length limit and pattern of start and ready",
     "the tests use one array and fixed stalls",
     ["amlib/stream/generator.py"], [("StreamSerializer.elaborate", "amlib/stream/generator.py")])
prop("C21", "The packet list streamer sends each listed packet intact and separately framed",
     "After start the streamer sends every listed packet once, in order, with first and last on the packet's own first and last word, and reports done exactly when the list is complete.",
     ["inputs", "schedules", "configurations"], "every pattern of start and ready; several packet lists and data widths",
     "the test sends one list without back pressure",
     ["amlib/stream/generator.py"], [("PacketListStreamer.elaborate", "amlib/stream/generator.py")])
prop("C22", "UART stream transmitters send every accepted word exactly and nothing else",
     "Each accepted octet appears on the line as one 8N1 frame of exactly the divisor per bit, multi octet words least significant octet first, with the line idle high otherwise. "
     "Words are taken only when ready is signalled and none is lost, altered or repeated, whatever the producer's timing.",
     ["inputs", "schedules", "configurations"], "every word and pattern of valid; divisors and word sizes within the bound",
     "tests send a few constants at one divisor",
     ["amlib/stream/uart.py"], [("UARTTransmitter.elaborate", "amlib/stream/uart.py"), ("UARTMultibyteTransmitter.elaborate", "amlib/stream/uart.py"), ("UARTTransmitterPeripheral.elaborate", "amlib/stream/uart.py")])
prop("C23", "The FIR filter's output is the convolution of its samples with the designed taps",
     "For every sample sequence the output is the sum, over the filter order, of each sample in the delay line times its designed tap, every product rounded down to the output scale. "
     "The single multiplier version gives the same result once its computation is done, shows no intermediate values, and only enabled samples enter the delay line.",
     ["inputs", "histories", "configurations"], "every sample value and enable pattern within the bound; several orders, filter types and number formats; both structures",
     "the tests plot a waveform and assert nothing",
     ["amlib/dsp/fixedpointfirfilter.py"], [("FixedPointFIRFilter.elaborate", "amlib/dsp/fixedpointfirfilter.py")], observe=["signal_out"])
prop("C24", "The IIR filter's output follows its designed difference equation exactly",
     "For every sample sequence the output is the designed recurrence over past inputs and past outputs, every product rounded down to the output scale. The state moves only when a sample is enabled.",
     ["inputs", "histories", "configurations"], "every sample value and enable pattern within the bound; several orders, types and number formats",
     "the tests plot a waveform and assert nothing",
     ["amlib/dsp/fixedpointiirfilter.py"], [("FixedPointIIRFilter.elaborate", "amlib/dsp/fixedpointiirfilter.py")], observe=["signal_out"])
prop("C25", "The half band decimator filters exactly and strobes every second sample",
     "The output is the symmetric half band response of the samples taken in, with the centre tap a half and every product rounded down, and exactly every second input strobe yields one output strobe. "
     "The single multiplier version gives the same results.",
     ["inputs", "histories", "configurations"], "every sample value and strobe pattern within the bound; several orders and formats; both structures",
     "the tests plot a waveform and assert nothing",
     ["amlib/dsp/fixedpointhbfilter.py"], [("FixedPointHBFilter.elaborate", "amlib/dsp/fixedpointhbfilter.py")], observe=["signal_out", "strobe_out"])
prop("C26", "The CIC decimator computes the exact boxcar response of its one bit input",
     "Every decimated output equals the N-fold boxcar sum of the one bit input samples scaled to the output width, without error accumulating over time, and appears with exactly one output strobe per decimation period.",
     ["inputs", "histories", "configurations"], "every sequence of input bits within the bound; several stage counts, decimations and widths",
     "the tests plot a waveform and assert nothing",
     ["amlib/dsp/fixedpointcicfilter.py"], [("FixedPointCICFilter.elaborate", "amlib/dsp/fixedpointcicfilter.py")], observe=["signal_out", "strobe_out"])
prop("C27", "A filter bank is exactly its filters in series",
     "The output of a bank of n filters is what n filters of the chosen structure and design produce one after the other, each stage working on the output of the stage before.",
     ["inputs", "histories", "configurations"], "every sample value and enable pattern within the bound; one to three stages of either structure",
     "the test plots a waveform and asserts nothing",
     ["amlib/dsp/filterbank.py"], [("Filterbank.elaborate", "amlib/dsp/filterbank.py")], observe=["signal_out"])
prop("C28", "The resampler delivers every rate-converted sample exactly once, in order",
     "The output is the input zero-stuffed by the upsampling factor, filtered by the designed filter at the common gain, of which every n-th word is kept; each of these words is delivered exactly once, in order, with its exact value. "
     "Neither a slow producer nor a slow consumer loses, repeats or alters a word.",
     ["inputs", "schedules", "configurations"], "every sample value under listed schedules; every schedule of producer and consumer within the bound; several ratios, filter structures and widths",
     "the tests plot a waveform, assert nothing and never stall the consumer",
     ["amlib/dsp/resampler.py"], [("FractionalResampler.elaborate", "amlib/dsp/resampler.py")])
prop("C29", "The FFT computes the windowed transform of every block, in order",
     "Every block of samples yields, in order and with one strobe each, the fixed point transform of the windowed samples, whatever was computed before. "
     "A loaded window is the one used from then on; strobes and starts outside their phase have no effect.",
     ["inputs", "histories", "configurations"], "every sample value and window coefficient within the bound; several block lengths, widths and sample distances",
     "the test prints one transform and asserts nothing",
     ["amlib/dsp/fixedpointfft.py"], [("FixedPointFFT.elaborate", "amlib/dsp/fixedpointfft.py")])
prop("C30", "The stereo convolver outputs the exact convolution of both channels",
     "Each output is the exact sum of the stored samples times the taps of its mode, left before right, one output pair for each input pair. "
     "Neither a slow producer nor a slow consumer loses, repeats or alters an output.",
     ["inputs", "schedules", "configurations"], "every sample value under listed schedules; every schedule within the bound; three modes, one to four slices, taps of either sign and full scale",
     "the test uses positive taps in one slice arrangement and a consumer that never stalls",
     ["amlib/dsp/convolution/mac.py"], [("StereoConvolutionMAC.elaborate", "amlib/dsp/convolution/mac.py")])
prop("C31", "The logic analyzer captures exactly the samples around the trigger",
     "A trigger captures, into consecutive cells, the probe values starting the requested number of cycles before it, one per enabled cycle, until the buffer is full. "
     "Completion is signalled exactly then, every cell reads back the captured value, and a trigger during a capture changes nothing.",
     ["inputs", "histories", "configurations"], "every probe value, every pattern of trigger and enable within the bound; several depths and pretrigger counts",
     "tests capture fixed ramps with one depth and no pretrigger count of two",
     ["amlib/debug/ila.py"], [("IntegratedLogicAnalyzer.elaborate", "amlib/debug/ila.py")])
prop("C32", "The logic analyzer's readout delivers every captured sample once, in order",
     "After each capture every captured sample leaves once, in order and unaltered, over the stream with first and last on exactly the first and the last, over the serial line, or over SPI, whatever the reader's timing and clock. "
     "The host side frontend decodes the serial octets to the values the probes had, and its waveform file shows them at their times.",
     ["inputs", "schedules", "configurations"], "every sample value and pattern of the reader's readiness within the bound; several buffer sizes, sample widths, clock relations, SPI modes and serial divisors",
     "the tests read one ramp with a reader that is always ready, and never run the frontend",
     ["amlib/debug/ila.py"], [("StreamILA.elaborate", "amlib/debug/ila.py"), ("AsyncSerialILA.elaborate", "amlib/debug/ila.py"), ("SyncSerialILA.elaborate", "amlib/debug/ila.py"),
      ("AsyncSerialILAFrontend._split_samples", "amlib/debug/ila.py"), ("ILAFrontend._parse_sample", "amlib/debug/ila.py")])
prop("C37", "The timer is done exactly when its load and reload values say",
     "After a start, done is high for one cycle when the load value has elapsed, and then every reload period for as long as a reload value is given; it is never high otherwise. "
     "Starts during the run have no effect on it.",
     ["inputs", "schedules", "configurations"], "every load and reload value of the widths, every pattern of start",
     "tests use one load and reload value each and one start",
     ["amlib/utils/timer.py"], [("Timer.elaborate", "amlib/utils/timer.py")])
prop("C38", "The shift registers shift, load and count exactly as asked",
     "The input shift register holds the last bits shifted in, in order, and the output shift register emits the loaded word bit by bit, each moving only in enabled cycles. Clear and write override shifting.",
     ["inputs", "histories", "configurations"], "every bit, enable, clear and write pattern from every register value; depths 1 to 24",
     "tests shift one fixed word at one depth",
     ["amlib/utils/shiftregister.py"], [("InputShiftRegister.elaborate", "amlib/utils/shiftregister.py"), ("OutputShiftRegister.elaborate", "amlib/utils/shiftregister.py")])
prop("C39", "Edge detectors fire in exactly the cycles in which the signal changes",
     "The rising, falling and any edge detectors and the past value helper report, in the cycle of the change, exactly the changes of the signal against the cycle before in their own clock domain. They never fire without a change.",
     ["inputs", "configurations"], "every sequence of values within the bound; one and several bit signals; default and other clock domain",
     "tests see one edge of a one bit signal in the default domain",
     ["amlib/utils/__init__.py", "amlib/utils/edgetopulse.py"], [("past_value_of", "amlib/utils/__init__.py"), ("any_edge_detected", "amlib/utils/__init__.py"), ("EdgeToPulse.elaborate", "amlib/utils/edgetopulse.py")])
prop("C40", "Synchronizers delay, and strobe stretchers stretch, by exactly the stages asked",
     "Every input of a synchronized signal or record appears unaltered the given number of destination clock cycles later, fields driven the other way are left alone. "
     "A stretched strobe is high for exactly the given number of cycles after each strobe.",
     ["inputs", "configurations"], "every sequence of values and strobes within the bound; stages, lengths and record layouts",
     "tests try one strobe and one record in the default settings",
     ["amlib/utils/cdc.py"], [("synchronize", "amlib/utils/cdc.py"), ("stretch_strobe_signal", "amlib/utils/cdc.py")])
prop("C41", "Counters, clock dividers, NRZI encoder and multiplexer follow their definitions",
     "The dividing counter advances once per divisor active cycles, the divided clock has half periods of exactly half the divisor, the NRZI encoder toggles on every one and holds on every zero, and the one hot multiplexer passes the valid interface on unaltered.",
     ["inputs", "configurations"], "every pattern of their inputs within the bound; several divisors, widths and interface counts",
     "the counter has one test of a fixed pattern, the others have none",
     ["amlib/utils/dividingcounter.py", "amlib/utils/clockdivider.py", "amlib/utils/nrziencoder.py", "amlib/utils/bus.py"],
     [("DividingCounter.elaborate", "amlib/utils/dividingcounter.py"), ("SimpleClockDivider.elaborate", "amlib/utils/clockdivider.py"), ("NRZIEncoder.elaborate", "amlib/utils/nrziencoder.py"), ("OneHotMultiplexer.elaborate", "amlib/utils/bus.py")])
prop("C42", "The LFSR steps by its polynomial and never locks up",
     "From every register value the register moves to the value its taps define, never from a nonzero value to zero, and no two values have the same successor. The software model generates the same sequence.",
     ["inputs", "configurations"], "every register value; degrees up to 32",
     "the test looks at one polynomial from one start value",
     ["amlib/utils/lfsr.py"], [("LinearFeedbackShiftRegister.elaborate", "amlib/utils/lfsr.py")])
prop("C33", "No event is lost, and the interrupt is high exactly while one is enabled",
     "A level, rising or falling event sets its pending bit in the cycle it happens, even against a clearing write in the same cycle; only a one written to it clears it. "
     "The interrupt line is high exactly while an enabled event is pending, and the status and enable registers read back what they should.",
     ["inputs", "schedules", "configurations"], "every pattern of strobes and register writes within the bound; all trigger modes",
     "there is no test",
     ["amlib/soc/event.py"], [("InterruptSource.elaborate", "amlib/soc/event.py")])
prop("C34", "Wishbone memories return what was last written to the addressed lanes",
     "Every request is acknowledged exactly once, in the next cycle; a read delivers the initial content or the octets last written to that word, a write changes exactly the selected lanes of the addressed word, and read only memories never change. "
     "An idle bus changes nothing.",
     ["inputs", "histories", "configurations"], "every sequence of reads and writes within the bound; word widths, lane widths, initialisation from numbers, octets and files",
     "there is no test",
     ["amlib/soc/memory.py"], [("WishboneRAM.elaborate", "amlib/soc/memory.py"), ("WishboneROM", "amlib/soc/memory.py")])
prop("C35", "The UART peripheral passes every word between its registers and the line",
     "Words written while enabled and not full leave on the line in order, words from the line are read in order and once each, and a word is lost only when its FIFO is full, which the flags say. "
     "The divisor written is the one in force, and the events reach the interrupt line exactly when enabled.",
     ["inputs", "schedules", "configurations"], "every word, every pattern of register accesses within the bound; FIFO depths, parities and divisors",
     "there is no test",
     ["amlib/soc/uart.py", "amlib/soc/peripheral.py", "amlib/io/serial.py"], [("UARTPeripheral.elaborate", "amlib/soc/uart.py"), ("PeripheralBridge.elaborate", "amlib/soc/peripheral.py")])
prop("C36", "Bit sequences convert, slice, join and combine without losing a bit",
     "A bit sequence made of a number, digits, octets in either order or an iterable holds exactly those bits and gives them back in every form. "
     "Indexing, slicing, joining, repeating, reversing, comparing and the logic operations act on exactly the bits named, from either end.",
     ["inputs", "configurations"], "every value; lengths from 0 to 13 and 32; every index and slice of short sequences",
     "tests use a few constants and never a negative index",
     ["amlib/utils/bits.py"], [("bits.from_int", "amlib/utils/bits.py"), ("bits.__getitem__", "amlib/utils/bits.py"), ("bits.from_bytes", "amlib/utils/bits.py")], tech="bounded symbolic execution of the Python source (from /repo on every run), SMT (z3 QF_BV)")
prop("C43", "The CRC model computes the remainders of the published algorithms",
     "For every register value and message the model's result is the polynomial remainder defined by the algorithm's generator, seed, bit order and mask, whether the message is taken at once or in parts. "
     "The predefined algorithms have the published parameters, and reflecting and reversing an algorithm does what its documentation says.",
     ["inputs", "configurations"], "every register value, every message up to the bound; all predefined algorithms but the 256 bit one",
     "there is no test of it, only examples",
     ["amlib/test/crc.py"], [("CrcRegister.takeBit", "amlib/test/crc.py"), ("CrcAlgorithm.calcString", "amlib/test/crc.py")], tech="bounded symbolic execution of the Python source (from /repo on every run), SMT (z3 QF_BV)")
prop("C44", "A peripheral's registers and windows answer exactly at their announced addresses",
     "A bus transaction at the address the memory map gives for a register or window reaches that register or window once, with the word written and read unchanged, and no other; explicitly requested addresses and alignments are kept, nothing overlaps, "
     "and the interrupt line of the peripheral follows its events as their registers on the bus say.",
     ["inputs", "schedules", "configurations"], "every address, word and event pattern; banks, windows, alignments and bus widths",
     "there is no test: the bus library is not even a dependency of the tests",
     ["amlib/soc/peripheral.py"], [("PeripheralBridge.__init__", "amlib/soc/peripheral.py"), ("Peripheral.csr_bank", "amlib/soc/peripheral.py"), ("CSRBank.csr", "amlib/soc/peripheral.py")])
prop("C45", "A SimpleSoC is laid out as its C header and linker script say",
     "Every request of the processor's instruction or data bus at an address announced for a memory or register reaches exactly that, answers once and carries the right content; unused addresses are not answered; "
     "memories and peripherals are at the addresses asked for; interrupt line n of the processor is the peripheral for which the header says n; the debug port follows its pins.",
     ["inputs", "schedules", "configurations"], "every address, lane selection, word and bus; layouts with implicit and explicit addresses",
     "there is no test: neither the processor nor the bus library is installed",
     ["amlib/soc/simplesoc.py", "amlib/soc/memory.py"], [("SimpleSoC.add_peripheral", "amlib/soc/simplesoc.py"), ("SimpleSoC.elaborate", "amlib/soc/simplesoc.py"), ("SimpleSoC.generate_c_header", "amlib/soc/simplesoc.py"), ("SimpleSoC.generate_ld_script", "amlib/soc/simplesoc.py")])
