From 665024d59ba998d9829b0559ec527777c9cdca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 01/45] fix: TransactionalizedFIFO read_data one cycle stale
 after read_discard

The read address kept following the abandoned read position in the cycle of
the discard, so the cycle after it showed the wrong entry while empty was low.
---
 amlib/utils/fifo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/fifo.py b/amlib/utils/fifo.py
index d82730f..1aba1b5 100644
--- a/amlib/utils/fifo.py
+++ b/amlib/utils/fifo.py
@@ -179,8 +179,10 @@ class TransactionalizedFIFO(Elaboratable):
 
         # Our memory always takes a single cycle to provide its read output; so we'll update its address
         # "one cycle in advance". Accordingly, if we're about to advance the FIFO, we'll use the next read
-        # address as our input. If we're not, we'll use the current one.
-        with m.If(self.read_en & ~self.empty):
+        # address as our input. If we're not, we'll use the current one. A discard rewinds us, overriding both.
+        with m.If(self.read_discard):
+            m.d.comb += read_port.addr.eq(committed_read_pointer)
+        with m.Elif(self.read_en & ~self.empty):
             m.d.comb += read_port.addr.eq(next_read_pointer)
         with m.Else():
             m.d.comb += read_port.addr.eq(current_read_pointer)
-- 
2.43.0


From 68eab3026eeb40fe04a4e26a752386b316ef4708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 02/45] fix: I2CInitiator accepted strobes in the last busy
 cycle

start/stop/read/write are documented as ignored while busy is high, but the
cycle in which the state machine returns to idle already acted on them.
---
 amlib/io/i2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amlib/io/i2c.py b/amlib/io/i2c.py
index 3061964..2222c56 100644
--- a/amlib/io/i2c.py
+++ b/amlib/io/i2c.py
@@ -166,7 +166,10 @@ class I2CInitiator(Module):
 
         self.fsm.act("IDLE",
             NextValue(self.busy, 1),
-            If(self.start,
+            If(self.busy,
+                # the cycle before busy falls: strobes are still ignored
+                NextValue(self.busy, 0)
+            ).Elif(self.start,
                 If(bus.scl_i & bus.sda_i,
                     NextState("START-SDA-L")
                 ).Elif(~bus.scl_i,
-- 
2.43.0


From f8e78e948e251d0ff6498567a765041336d879b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:40 +0000
Subject: [PATCH 03/45] fix: I2CStreamTransmitter sent a stale octet when its
 FIFO ran dry inside a packet

---
 amlib/stream/i2c.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/amlib/stream/i2c.py b/amlib/stream/i2c.py
index 5bf260b..fdc503f 100644
--- a/amlib/stream/i2c.py
+++ b/amlib/stream/i2c.py
@@ -53,15 +53,13 @@ class I2CStreamTransmitter(Elaboratable):
                     m.next = "STREAMING"
 
             with m.State("STREAMING"):
-                with m.If(~i2c.busy):
+                with m.If(~i2c.busy & in_fifo.r_rdy):
                     m.d.comb += [
                         i2c.data_i.eq(payload),
                         i2c.write.eq(1),
+                        in_fifo.r_en.eq(1),
                     ]
 
-                    with m.If(in_fifo.r_rdy):
-                        m.d.comb += in_fifo.r_en.eq(1)
-
                     with m.If(last):
                         m.next = "STOP"
 
-- 
2.43.0


From 32f767252cc55f73efa8f27b3f67c45afa9d2bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:11 +0000
Subject: [PATCH 04/45] fix: SPIDeviceInterface lost word alignment after the
 first word for non-power-of-two word sizes

---
 amlib/io/spi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 3345ebb..8d2eecc 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -333,6 +333,7 @@ class SPIDeviceInterface(Elaboratable):
                 # If we're just completing a word, handle I/O.
                 with m.If(bit_count + 1 == self.word_size):
                     m.d.sync += [
+                        bit_count          .eq(0),
                         self.word_accepted .eq(1),
                         current_tx         .eq(self.word_out)
                     ]
-- 
2.43.0


From 6f33066d3651cca4bc2637cae39dd7ef7e9f7a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 05/45] fix: SPIControllerInterface lost the first bit of each
 word in clock phase 0

---
 amlib/io/spi.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 8d2eecc..2fa8d52 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -128,13 +128,18 @@ class SPIControllerInterface(Elaboratable):
             self.word_complete.eq(spi_device.word_complete),
         ]
 
-        clock_edge = Rose(sck_divider.clock_out, clocks=self.divisor//8, domain="sync") if not self.clock_polarity else \
-                     Fell(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
+        if self.clock_phase == 0:
+            # the first bit has to be on the line before the leading edge, so the chip
+            # is selected as soon as the clock goes to its idle level
+            clock_edge = Fell(sck_divider.clock_out, domain="sync") if not self.clock_polarity else \
+                         Rose(sck_divider.clock_out, domain="sync")
+        else:
+            clock_edge = Rose(sck_divider.clock_out, clocks=self.divisor//8, domain="sync") if not self.clock_polarity else \
+                         Fell(sck_divider.clock_out, clocks=self.divisor//8, domain="sync")
 
         with m.FSM() as fsm:
             m.d.comb += sck.eq(Mux(fsm.ongoing("TRANSFER"), sck_divider.clock_out, self.clock_polarity))
-            cs_domain = m.d.comb if self.clock_phase == 1 else m.d.sync
-            cs_domain += cs.eq(Mux(fsm.ongoing("TRANSFER"), cs_active, cs_inactive))
+            m.d.comb += cs.eq(Mux(fsm.ongoing("TRANSFER"), cs_active, cs_inactive))
 
             with m.State("IDLE"):
                 m.d.sync += sck_divider.clock_enable_in.eq(0)
-- 
2.43.0


From 0d6789b054f8b56e9bc448ac4d191ce097ede169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:52 +0000
Subject: [PATCH 06/45] fix: I2S bit counters overflowed for sample widths of
 31 and 32 bits

---
 amlib/io/i2s.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 4a2a230..736e4ab 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -6,7 +6,6 @@
 #   Copyright (c) 2021 Hans Baier <hansfbaier@gmail.com>
 # SPDX-License-Identifier: BSD-2-Clause
 
-import math
 from enum import Enum
 
 from amaranth import *
@@ -118,8 +117,7 @@ class I2STransmitter(Elaboratable):
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
 
-        tx_cnt_width = math.ceil(math.log(fifo_data_width,2))
-        tx_cnt = Signal(tx_cnt_width)
+        tx_cnt = Signal(range(sample_width + 1))
         tx_shifter = Signal(tx_buf_width - 1)
         sample_msb = fifo_data_width - 1
 
@@ -350,8 +348,7 @@ class I2SReceiver(Elaboratable):
                 concatenate_channels = False
                 print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
 
-        rx_cnt_width = math.ceil(math.log(fifo_data_width, 2))
-        rx_cnt = Signal(rx_cnt_width)
+        rx_cnt = Signal(range(sample_width + 1))
 
         bit_clock  = Signal()
         word_clock = Signal()
-- 
2.43.0


From 4c41221048df5dfc3a797cd4b87ca5881b3efe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:03 +0000
Subject: [PATCH 07/45] fix: seven segment hex display showed 0xD as 0

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 3b133a7..30744ea 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -24,7 +24,7 @@ seven_segment_font = [
 seven_segment_hex_numbers = [
   ['0', 0b1111110], ['1', 0b0110000], ['2', 0b1101101], ['3', 0b1111001], ['4', 0b0110011],
   ['5', 0b1011011], ['6', 0b1011111], ['7', 0b1110000], ['8', 0b1111111], ['9', 0b1111011],
-  ['A', 0b1110111], ['b', 0b0011111], ['C', 0b1001110], ['D', 0b1111110], ['E', 0b1001111], ['F', 0b1000111],
+  ['A', 0b1110111], ['b', 0b0011111], ['C', 0b1001110], ['d', 0b0111101], ['E', 0b1001111], ['F', 0b1000111],
 ]
 
 class NibbleToSevenSegmentHex(Elaboratable):
-- 
2.43.0


From 9aa60bdb9cbc30366ace31099a154e6b9fc1d253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:03 +0000
Subject: [PATCH 08/45] fix: NumberToBitBar input could not hold a maximum that
 is a power of two

---
 amlib/io/led.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/led.py b/amlib/io/led.py
index 30744ea..4959835 100644
--- a/amlib/io/led.py
+++ b/amlib/io/led.py
@@ -88,7 +88,7 @@ class NumberToBitBar(Elaboratable):
         self.bitbar   = [Const(int(2**n - 1), bitwidth_out) for n in range(bitwidth_out + 1)]
 
         # I/O
-        self.value_in   = Signal(range(maxvalue_in))
+        self.value_in   = Signal(range(maxvalue_in + 1))
         self.bitbar_out = Signal(bitwidth_out)
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From 36b93c818f6f380b22eae8f4922fc8f674310d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:33 +0000
Subject: [PATCH 09/45] fix: WS2812 reset was one bit time instead of 50us and
 the line idled high

---
 amlib/io/ws2812.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amlib/io/ws2812.py b/amlib/io/ws2812.py
index e46fe52..66d58e8 100644
--- a/amlib/io/ws2812.py
+++ b/amlib/io/ws2812.py
@@ -23,6 +23,7 @@ class WS2812(Elaboratable):
         self.full_cycle_length = sys_clock_freq // 800e3
         self.low_cycle_length  = int(0.32 * self.full_cycle_length)
         self.high_cycle_length = int(0.64 * self.full_cycle_length)
+        self.reset_length      = int(50e-6 * sys_clock_freq)
         print(f"full cycle: {self.full_cycle_length}")
 
         self.mem = Memory(width=24, depth=no_leds, name="led_memory")
@@ -51,14 +52,14 @@ class WS2812(Elaboratable):
         bit_counter = Signal(5)
         current_bit = Signal()
 
-        cycle_counter_width  = bits_for(int(self.full_cycle_length)) + 1
+        cycle_counter_width  = bits_for(self.reset_length) + 1
         cycle_counter        = Signal(cycle_counter_width)
         current_cycle_length = Signal.like(cycle_counter)
 
         print(f"cycle counter: {cycle_counter_width}")
 
         m.d.comb += [
-            self.data_out.eq(1),
+            self.data_out.eq(0),
             current_bit.eq(grb[23]),
             current_cycle_length.eq(Mux(current_bit, self.high_cycle_length, self.low_cycle_length)),
             mem_write_port.addr.eq(self.led_address_in),
@@ -74,10 +75,9 @@ class WS2812(Elaboratable):
                     m.next = "RESET"
 
             with m.State("RESET"):
-                m.d.comb += self.data_out.eq(0)
                 m.d.sync += cycle_counter.eq(cycle_counter + 1)
 
-                with m.If(cycle_counter >= Const(self.full_cycle_length)):
+                with m.If(cycle_counter >= self.reset_length):
                     m.d.sync += cycle_counter.eq(0)
 
                     with m.If(led_counter == 0):
-- 
2.43.0


From 34a93c6c76ceaf4ecedb535fcf1b53d5b4e568e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:33 +0000
Subject: [PATCH 10/45] fix: SerialLEDArray step counter overflowed for init
 sequences of eight or more commands

---
 amlib/io/max7219.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/io/max7219.py b/amlib/io/max7219.py
index e1d4051..ff2843a 100644
--- a/amlib/io/max7219.py
+++ b/amlib/io/max7219.py
@@ -76,7 +76,7 @@ class SerialLEDArray(Elaboratable):
         with m.If(next_digit):
             m.d.sync += digit_counter.eq(digit_counter + 1)
 
-        step_counter = Signal(range(10))
+        step_counter = Signal(range(2 * len(self.init_sequence) + 2))
         next_step    = Signal()
 
         with m.If(next_step):
-- 
2.43.0


From d27db8a3e16e27d29f5b1873e3cfcfd6b994a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:23 +0000
Subject: [PATCH 11/45] fix: Timer missed a load or reload value of one and ran
 for the full counter range

---
 amlib/utils/timer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amlib/utils/timer.py b/amlib/utils/timer.py
index 8ac9f39..4145c71 100644
--- a/amlib/utils/timer.py
+++ b/amlib/utils/timer.py
@@ -31,7 +31,10 @@ class Timer(Elaboratable):
                     # done should appear exactly 'load' cycles
                     # load is one-based, but we stop at zero
                     m.d.sync += counter.eq(counter - 1)
-                    m.next = "RUNNING"
+                    with m.If(counter == 1):
+                        m.next = "DONE"
+                    with m.Else():
+                        m.next = "RUNNING"
 
             with m.State("RUNNING"):
                 m.d.sync += counter.eq(counter - 1)
@@ -43,7 +46,8 @@ class Timer(Elaboratable):
                     # we want the next done to appear
                     # exactly 'reload_in' cycles later
                     m.d.sync += counter.eq(self.reload_in - 1)
-                    m.next = "RUNNING"
+                    with m.If(self.reload_in > 1):
+                        m.next = "RUNNING"
                 if self._allow_restart:
                     with m.Else():
                         m.next = "IDLE"
-- 
2.43.0


From be25151ac74c2c77ec26aea37095227801298781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:11 +0000
Subject: [PATCH 12/45] fix: StreamInterface could not omit extra fields from a
 connection

---
 amlib/stream/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/__init__.py b/amlib/stream/__init__.py
index 2df6991..47b9764 100644
--- a/amlib/stream/__init__.py
+++ b/amlib/stream/__init__.py
@@ -70,7 +70,7 @@ class StreamInterface(Record):
     def attach(self, interface, omit=None):
         # Create lists of fields to be copied -to- the interface (RHS fields),
         # and lists of fields to be copied -from- the interface (LHS fields).
-        rhs_fields = ['valid', 'first', 'last', 'payload', *self._extra_fields]
+        rhs_fields = ['valid', 'first', 'last', 'payload', *(name for name, *_ in self._extra_fields)]
         lhs_fields = ['ready']
         assignments = []
 
-- 
2.43.0


From e435dd908dbd148a15ac5da1673b76415dcbc151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:35 +0000
Subject: [PATCH 13/45] fix: ConstantStreamGenerator first flag and start
 position clamp first followed the live start_position input instead of the
 start position in force, and was never raised for a clamped start position;
 the clamp compared words with bytes

---
 amlib/stream/generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index 7fc19b6..c9825a0 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -162,7 +162,7 @@ class ConstantStreamGenerator(Elaboratable):
             bytes_per_word = 0
 
         # Track when we're on the first and last packet.
-        on_first_packet = position_in_stream == self.start_position
+        on_first_packet = Signal()
         on_last_packet  = \
             (position_in_stream          == (data_length - 1)) | \
             (bytes_sent + bytes_per_word >= self.max_length)
@@ -173,7 +173,7 @@ class ConstantStreamGenerator(Elaboratable):
         start_position = Signal.like(position_in_stream)
 
         # If our starting position is greater than our data length, use our data length.
-        with m.If(self.start_position >= self._data_length):
+        with m.If(self.start_position >= data_length):
             m.d.comb += start_position.eq(data_length - 1)
 
         # Otherwise, use our starting position.
@@ -198,6 +198,7 @@ class ConstantStreamGenerator(Elaboratable):
                 # Keep ourselves at the beginning of the stream, but don't yet count.
                 m.d.sync += [
                     position_in_stream  .eq(start_position),
+                    on_first_packet     .eq(1),
                     bytes_sent          .eq(0)
                 ]
                 m.d.comb += [
@@ -288,6 +289,7 @@ class ConstantStreamGenerator(Elaboratable):
 
                 # If the current data byte is accepted, move past it.
                 with m.If(self.stream.ready):
+                    m.d.sync += on_first_packet.eq(0)
 
                     # If there's still data left to transmit, move forward.
                     with m.If(~on_last_packet):
-- 
2.43.0


From 2fec70b4424b75125d4d931ae6e638bbf24cb920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:59 +0000
Subject: [PATCH 14/45] fix: PacketListStreamer hung when started in the first
 cycle after reset

---
 amlib/stream/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index c9825a0..a746581 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -738,7 +738,7 @@ class PacketListStreamer(Elaboratable):
             ConstantStreamGenerator(packets_flattened, max_length_width=max_length_width)
 
         rom = Memory(width=max_length_width, depth=no_packets, init=packet_lengths)
-        m.submodules.packet_lengths_rom = packet_lengths_rom = rom.read_port(transparent=False)
+        m.submodules.packet_lengths_rom = packet_lengths_rom = rom.read_port(domain="comb")
 
         total_no_bytes = len(packets_flattened)
 
-- 
2.43.0


From 957c1fa21b816837a769c0f837aa8909a02e2c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:59 +0000
Subject: [PATCH 15/45] fix: PacketListStreamer never finished lists with a
 power of two total length

---
 amlib/stream/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index a746581..c2817f5 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -743,7 +743,7 @@ class PacketListStreamer(Elaboratable):
         total_no_bytes = len(packets_flattened)
 
         position           = Signal(range(total_no_bytes))
-        next_position      = Signal.like(position)
+        next_position      = Signal(range(total_no_bytes + 1))
         current_packet     = Signal(range(no_packets))
         current_packet_len = Signal(max_length_width)
 
-- 
2.43.0


From 616c0985ef8d9803f23d5bfdf8ebad1f7a165b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:59 +0000
Subject: [PATCH 16/45] fix: PacketListStreamer ignored its data width

---
 amlib/stream/generator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/amlib/stream/generator.py b/amlib/stream/generator.py
index c2817f5..d55f491 100644
--- a/amlib/stream/generator.py
+++ b/amlib/stream/generator.py
@@ -728,22 +728,23 @@ class PacketListStreamer(Elaboratable):
 
     def elaborate(self, platform) -> Module:
         m = Module()
+        bytes_per_word = (self._data_width + 7) // 8
         packet_lengths = [len(p) for p in self.packets]
         no_packets = len(packet_lengths)
 
-        max_length_width = bits_for(max(packet_lengths))
+        max_length_width = bits_for(max(packet_lengths) * bytes_per_word)
         packets_flattened = [words for packet in self.packets for words in packet]
 
         m.submodules.generator = generator = \
-            ConstantStreamGenerator(packets_flattened, max_length_width=max_length_width)
+            ConstantStreamGenerator(packets_flattened, data_width=self._data_width, max_length_width=max_length_width)
 
         rom = Memory(width=max_length_width, depth=no_packets, init=packet_lengths)
         m.submodules.packet_lengths_rom = packet_lengths_rom = rom.read_port(domain="comb")
 
-        total_no_bytes = len(packets_flattened)
+        total_no_words = len(packets_flattened)
 
-        position           = Signal(range(total_no_bytes))
-        next_position      = Signal(range(total_no_bytes + 1))
+        position           = Signal(range(total_no_words))
+        next_position      = Signal(range(total_no_words + 1))
         current_packet     = Signal(range(no_packets))
         current_packet_len = Signal(max_length_width)
 
@@ -753,7 +754,7 @@ class PacketListStreamer(Elaboratable):
             generator.start_position.eq(position),
             packet_lengths_rom.addr.eq(current_packet),
             current_packet_len.eq(packet_lengths_rom.data),
-            generator.max_length.eq(current_packet_len),
+            generator.max_length.eq(current_packet_len * bytes_per_word),
             next_position.eq(position + current_packet_len),
             self.done.eq(0)
         ]
@@ -770,7 +771,7 @@ class PacketListStreamer(Elaboratable):
 
             with m.State("WAIT"):
                 with m.If(generator.done):
-                    with m.If(next_position >= total_no_bytes):
+                    with m.If(next_position >= total_no_words):
                         m.d.comb += self.done.eq(1)
                         m.d.sync += [
                             position.eq(0),
-- 
2.43.0


From 3f82f122b87487b20277297c31282b70661978c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:56 +0000
Subject: [PATCH 17/45] fix: FixedPointFIRFilter with mac_loop used stale
 samples and truncated taps

The first product used the newest sample of the previous computation, so the current sample never took part and the
previous one counted twice; the coefficient register was too narrow for taps of one half and above.
---
 amlib/dsp/fixedpointfirfilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 6cdc154..3cbeac7 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -86,14 +86,14 @@ class FixedPointFIRFilter(Elaboratable):
             ix = Signal(range(n + 1))
             madd = Signal(signed(self.bitwidth))
             a = Signal(signed(self.bitwidth))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(1 + max(abs(tap) for tap in self.taps).bit_length()))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
                     with m.If(self.enable_in):
                         m.d.sync += [
                             ix.eq(1),
-                            a.eq(x[0]),
+                            a.eq(self.signal_in),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From f90023caefd48a3c11e64410ec3dae883a535f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:56 +0000
Subject: [PATCH 18/45] fix: FixedPointHBFilter with mac_loop used stale
 samples and truncated taps

The first product was formed from the samples before the shift, and the coefficient register could not hold taps when the
fraction is wider than the samples.
---
 amlib/dsp/fixedpointhbfilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/fixedpointhbfilter.py b/amlib/dsp/fixedpointhbfilter.py
index ce33b54..92b85e2 100644
--- a/amlib/dsp/fixedpointhbfilter.py
+++ b/amlib/dsp/fixedpointhbfilter.py
@@ -75,14 +75,14 @@ class FixedPointHBFilter(Elaboratable):
             ix = Signal(range(n + 2))
             madd = Signal(signed(self.bitwidth + 1))
             a = Signal(signed(self.bitwidth + 1))
-            b = Signal(signed(self.bitwidth))
+            b = Signal(signed(1 + max(abs(tap) for tap in self.taps).bit_length()))
 
             with m.FSM(reset="IDLE"):
                 with m.State("IDLE"):
                     with m.If(self.strobe_in):
                         m.d.sync += [
                             ix.eq(2),
-                            a.eq(x[0] + x[n - 1]),
+                            a.eq(self.signal_in + x[n - 2]),
                             b.eq(taps[0]),
                             madd.eq(0)
                         ]
-- 
2.43.0


From 4e1393bdc24721ff8dfeb2f14de25682b531d884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 19/45] fix: FFT output read the result memory one cycle too
 early

---
 amlib/dsp/fixedpointfft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 5c57ff9..2f5f2db 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -422,7 +422,10 @@ class FixedPointFFT(Elaboratable):
                             xr_rd.addr.eq(idx),
                             xi_rd.addr.eq(idx),
                         ]
-                    m.next = "READOUT"
+                    m.next = "READOUT_LATCHED"
+
+            with m.State("READOUT_LATCHED"):
+                m.next = "READOUT"
 
             with m.State("READOUT"):
                 with m.If(N & 1):
-- 
2.43.0


From 033cb7908295c237a7b57c254dbfc89b952fd4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 20/45] fix: FFT window loading stored coefficients at wrong
 addresses

---
 amlib/dsp/fixedpointfft.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/amlib/dsp/fixedpointfft.py b/amlib/dsp/fixedpointfft.py
index 2f5f2db..6403cbc 100644
--- a/amlib/dsp/fixedpointfft.py
+++ b/amlib/dsp/fixedpointfft.py
@@ -143,10 +143,6 @@ class FixedPointFFT(Elaboratable):
 
         # Window write
         wfidx = Signal(range(self.pts+1))
-        m.d.comb += [
-            wFr_wr.data.eq(self.wf_real),
-            wFi_wr.data.eq(self.wf_imag),
-        ]
 
         # FFT
         widx = Signal(N)
@@ -222,15 +218,18 @@ class FixedPointFFT(Elaboratable):
                     m.d.sync += wfidx.eq(0)
                     m.next = "DONE"
                 with m.Else():
-                    m.d.sync += wfidx.eq(wfidx+1)
                     m.next = "WINDOW_WR"
 
             with m.State("WINDOW_WR"):
                 with m.If(self.wf_strobe):
                     m.d.sync += [
                         wFr_wr.addr.eq(wfidx),
+                        wFi_wr.addr.eq(wfidx),
+                        wFr_wr.data.eq(self.wf_real),
+                        wFi_wr.data.eq(self.wf_imag),
                         wFr_wr.en.eq(1),
                         wFi_wr.en.eq(1),
+                        wfidx.eq(wfidx+1),
                     ]
                     m.next = "WINDOW_WRLOOP"
 
-- 
2.43.0


From a9c802af863b1668dbfdbf0a6c963b8fe69f3294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 21/45] fix: convolution MAC negative taps corrupted
 neighbouring slices

---
 amlib/dsp/convolution/mac.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index b20a128..991f792 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -91,12 +91,14 @@ class StereoConvolutionMAC(Elaboratable):
 
         taps_fp_mod = []
         taps2_fp_mod = []
+        tap_mask = 2 ** self._bitwidth - 1
         for i in range(0, self._tapcount, self._slices):
             val1 = 0
             val2 = 0
             for j in range(self._slices):
-                val1 += int(taps_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
-                val2 += int(taps2_fp[i+j]) << (self._slices - j - 1) * self._bitwidth
+                # mask the taps, otherwise negative ones would borrow from the slices above
+                val1 += (int(taps_fp[i+j]) & tap_mask) << (self._slices - j - 1) * self._bitwidth
+                val2 += (int(taps2_fp[i+j]) & tap_mask) << (self._slices - j - 1) * self._bitwidth
             taps_fp_mod.append(val1)
             taps2_fp_mod.append(val2)
 
-- 
2.43.0


From 768f8ae213359d0e3df8cbc2dbc62cc7904260f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 22/45] fix: convolution MAC hung with 2**n - 1 samples per
 slice

---
 amlib/dsp/convolution/mac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index 991f792..0ba3419 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -120,7 +120,7 @@ class StereoConvolutionMAC(Elaboratable):
         set1 = Signal()
         set2 = Signal()
         output_channels = Signal(2)
-        ix = Signal(range(self._samples_per_slice + 1))
+        ix = Signal(range(self._samples_per_slice + 2))
 
         previous_sample1 = Signal(self._size_of_slizes)
         previous_sample2 = Signal.like(previous_sample1)
-- 
2.43.0


From 207fa9b9c14ded1d97cb358b9d8247e3857497c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 23/45] fix: convolution MAC lost output samples when the
 consumer stalled

---
 amlib/dsp/convolution/mac.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/amlib/dsp/convolution/mac.py b/amlib/dsp/convolution/mac.py
index 0ba3419..ec9ea13 100644
--- a/amlib/dsp/convolution/mac.py
+++ b/amlib/dsp/convolution/mac.py
@@ -150,7 +150,6 @@ class StereoConvolutionMAC(Elaboratable):
         ]
 
         m.d.sync += [
-            self.signal_out.valid.eq(0),
             samples1_write_port.en.eq(0),
             samples2_write_port.en.eq(0),
 
@@ -286,14 +285,15 @@ class StereoConvolutionMAC(Elaboratable):
 
                 with m.If(output_channels == 2):
                     m.next = "IDLE"
-                with m.Elif(self.signal_out.ready):
-                    m.d.sync += [
-                        output_channels.eq(output_channels + 1),
+                with m.Else():
+                    m.d.comb += [
                         self.signal_out.payload.eq(Mux(output_channels == 0, sumSignalL >> self._bitwidth, sumSignalR >> self._bitwidth)),
                         self.signal_out.valid.eq(1),
-                        self.signal_out.first.eq(~output_channels),
-                        self.signal_out.last.eq(output_channels),
+                        self.signal_out.first.eq(output_channels == 0),
+                        self.signal_out.last.eq(output_channels == 1),
                     ]
+                    with m.If(self.signal_out.ready):
+                        m.d.sync += output_channels.eq(output_channels + 1)
 
         return m
 
-- 
2.43.0


From fecd69d6bbf3e2d951abae764a98fa34dbf3f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 24/45] fix: resampler dropped filtered samples while its FIFO
 was full

---
 amlib/dsp/resampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index 07c4618..3b5c2b1 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -84,7 +84,7 @@ class FractionalResampler(Elaboratable):
             input_ready.eq((upsample_counter == 0) & (downsamplefifo.w_rdy)),
             input_data.eq(self.signal_in.payload.as_signed()),
             antialiasingfilter.signal_in.eq(upsampled_signal),
-            antialiasingfilter.enable_in.eq(upsample_counter > 0),
+            antialiasingfilter.enable_in.eq((upsample_counter > 0) & downsamplefifo.w_rdy),
             downsamplefifo.w_en.eq(downsamplefifo.w_rdy & antialiasingfilter.enable_in),
         ]
 
@@ -94,7 +94,7 @@ class FractionalResampler(Elaboratable):
                 antialiasingfilter.enable_in.eq(1),
             ]
             m.d.sync += upsample_counter.eq(self.upsample_factor - 1)
-        with m.Elif(upsample_counter > 0):
+        with m.Elif((upsample_counter > 0) & downsamplefifo.w_rdy):
             m.d.comb += upsampled_signal.eq(0)
             m.d.sync += upsample_counter.eq(upsample_counter - 1)
 
-- 
2.43.0


From 73d1d3d204cc44330f730b4d24154493c5bb2a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 25/45] fix: ILA with two pretrigger samples captured three

---
 amlib/debug/ila.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 79f6bed..9a61deb 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -139,7 +139,14 @@ class IntegratedLogicAnalyzer(Elaboratable):
                 if with_enable:
                     delayed_enable = Signal()
                     m.d.comb += delayed_enable.eq(synced_enable)
-            else: # samples_pretrigger >= 2
+            elif self.samples_pretrigger == 2:
+                # the latency of the pretrigger FIFO would already be
+                # one cycle too long here
+                m.d.sync += delayed_inputs.eq(synced_inputs)
+                if with_enable:
+                    delayed_enable = Signal()
+                    m.d.sync += delayed_enable.eq(synced_enable)
+            else: # samples_pretrigger >= 3
                 capture_fifo_width = self.sample_width
                 if with_enable:
                     capture_fifo_width += 1
-- 
2.43.0


From 8cddfb68cbd41c3a098ef291f61db388b7568b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 26/45] fix: StreamILA with o_domain ended its readout on the
 other domain's last

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 9a61deb..db9818f 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -813,7 +813,7 @@ class StreamILA(Elaboratable):
 
 
                         # If this was the last sample, we're done! Move back to idle.
-                        with m.If(self.stream.last):
+                        with m.If(in_domain_stream.last):
                             m.next = "IDLE"
 
                     with m.Else():
-- 
2.43.0


From cce763d26d89741352184584a9b63823a2dfbd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 27/45] fix: past_value_of truncated signals to one bit

---
 amlib/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/utils/__init__.py b/amlib/utils/__init__.py
index 01d14d9..5cf9a8e 100644
--- a/amlib/utils/__init__.py
+++ b/amlib/utils/__init__.py
@@ -52,7 +52,7 @@ def past_value_of(m, signal, *, domain):
     """ Generates and returns a signal that represents the value of another signal a cycle ago. """
 
     # Create a one-cycle delayed version of our input signal.
-    delayed = Signal()
+    delayed = Signal.like(signal)
     m.d[domain] += delayed.eq(signal)
 
     return delayed
-- 
2.43.0


From 3b54af2717697371f31bf36cccc405545e5b3d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 28/45] fix: any_edge_detected compared multi bit signals
 against one bit

---
 amlib/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/utils/__init__.py b/amlib/utils/__init__.py
index 5cf9a8e..ec68720 100644
--- a/amlib/utils/__init__.py
+++ b/amlib/utils/__init__.py
@@ -32,7 +32,7 @@ def _single_edge_detector(m, signal, *, domain, edge='rising'):
     """ Generates and returns a signal that goes high for a cycle upon a given edge of a given signal. """
 
     # Create a one-cycle delayed version of our input signal.
-    delayed = Signal()
+    delayed = Signal.like(signal)
     m.d[domain] += delayed.eq(signal)
 
     # And create a signal that detects edges on the relevant signal.
-- 
2.43.0


From fea62ad8052aa736dfb51b22daf5d529f15e79db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 29/45] fix: bits negative indices read above the sequence

---
 amlib/utils/bits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/utils/bits.py b/amlib/utils/bits.py
index feda7d8..0b01dc8 100644
--- a/amlib/utils/bits.py
+++ b/amlib/utils/bits.py
@@ -137,7 +137,7 @@ class bits:
     def __getitem__(self, key):
         if isinstance(key, int):
             if key < 0:
-                return (self._int_ >> (self._len_ - key)) & 1
+                return (self._int_ >> (self._len_ + key)) & 1
             else:
                 return (self._int_ >> key) & 1
         if isinstance(key, slice):
-- 
2.43.0


From 95ac7fbf3097b73681f05d947a2a54e75a13e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 30/45] fix: memory initializers split bytes by bus granularity

---
 amlib/soc/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index 23b9d48..c31649b 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -33,7 +33,7 @@ class WishboneRAM(Elaboratable):
         if not isinstance(value, bytes):
             return value
 
-        bytes_per_chunk = data_width // granularity
+        bytes_per_chunk = data_width // 8
 
         words = (value[pos:pos + bytes_per_chunk] for pos in range(0, len(value), bytes_per_chunk))
         return [int.from_bytes(word, byteorder=byteorder) for word in words]
-- 
2.43.0


From b703d3eb14e38999c451872c7c0063798a2cfc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 31/45] fix: WishboneROM ignored its granularity

---
 amlib/soc/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/soc/memory.py b/amlib/soc/memory.py
index c31649b..f8d1db2 100644
--- a/amlib/soc/memory.py
+++ b/amlib/soc/memory.py
@@ -152,7 +152,7 @@ class WishboneROM(WishboneRAM):
         super().__init__(
             addr_width=addr_width,
             data_width=data_width,
-            granularity=8,
+            granularity=granularity,
             init=data,
             read_only=True,
             name=name
-- 
2.43.0


From 4f7834df3be7078a087d1e10ee00bff7e34c7780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 32/45] fix: AsyncSerialILAFrontend read the sample octets in
 the wrong order

---
 amlib/debug/ila.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index db9818f..4f8b6eb 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1262,7 +1262,7 @@ class AsyncSerialILAFrontend(ILAFrontend):
             raw_sample    = all_samples[i:i + sample_width_bytes]
             sample_length = len(Cat(self.ila.signals))
 
-            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='big')
+            yield bits.from_bytes(raw_sample, length=sample_length, byteorder='little')
 
 
     def _read_samples(self):
-- 
2.43.0


From 9b49c9e0e1c61830720b0738b7dcf5de61cd7ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 33/45] fix: SyncSerialILA ignored cs_idles_high

---
 amlib/debug/ila.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 4f8b6eb..00868bc 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -507,6 +507,7 @@ class SyncSerialILA(Elaboratable):
 
         self.clock_phase = clock_phase
         self.clock_polarity = clock_polarity
+        self.cs_idles_high  = cs_idles_high
 
         # Extract the domain from our keyword arguments, and then translate it to sync
         # before we pass it back below. We'll use a DomainRenamer at the boundary to
@@ -553,13 +554,18 @@ class SyncSerialILA(Elaboratable):
         m  = Module()
         m.submodules.ila = self.ila
 
-        transaction_start = Rose(self.spi.cs)
+        # Normalize our chip select, so it's high iff we're selected.
+        selected = Signal()
+        m.d.comb += selected.eq(~self.spi.cs if self.cs_idles_high else self.spi.cs)
+
+        transaction_start = Rose(selected)
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
             word_size=self.bits_per_sample,
             clock_polarity=self.clock_polarity,
-            clock_phase=self.clock_phase
+            clock_phase=self.clock_phase,
+            cs_idles_high=self.cs_idles_high
         )
         m.submodules.spi = interface
         m.d.comb += [
@@ -574,7 +580,7 @@ class SyncSerialILA(Elaboratable):
 
         # Our first piece of data is latched in when the transaction
         # starts, so we'll move on to sample #1.
-        with m.If(self.spi.cs):
+        with m.If(selected):
             with m.If(transaction_start):
                 m.d.sync += current_sample_number.eq(1)
 
-- 
2.43.0


From 86f29e5d85c677b71b3229a658d4dae8e502961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:23 +0000
Subject: [PATCH 34/45] fix: connect_to_resource of the SPI interfaces used a
 bus that does not exist

---
 amlib/io/spi.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index 2fa8d52..afd547b 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -88,10 +88,10 @@ class SPIControllerInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs if not self.cs_idles_high else ~self.spi_bus_out.cs),
+            spi_resource.copi .eq(self.spi.sdo),
+            self.spi.sdi      .eq(spi_resource.cipo),
+            spi_resource.clk  .eq(self.spi.sck),
+            spi_resource.cs   .eq(self.spi.cs if not self.cs_idles_high else ~self.spi.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
@@ -222,10 +222,10 @@ class SPIDeviceInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs if not self.cs_idles_high else ~self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs if not self.cs_idles_high else ~spi_resource.cs),
         ]
 
     def spi_edge_detectors(self, m, sck):
@@ -546,10 +546,10 @@ class SPICommandInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
@@ -902,10 +902,10 @@ class SPIRegisterInterface(Elaboratable):
 
     def connect_to_resource(self, spi_resource):
         return [
-            spi_resource.copi .eq(self.spi_bus_out.sdo),
-            spi_resource.cipo .eq(self.spi_bus_out.sdi),
-            spi_resource.clk  .eq(self.spi_bus_out.sck),
-            spi_resource.cs   .eq(self.spi_bus_out.cs),
+            self.spi.sdi      .eq(spi_resource.copi),
+            spi_resource.cipo .eq(self.spi.sdo),
+            self.spi.sck      .eq(spi_resource.clk),
+            self.spi.cs       .eq(spi_resource.cs),
         ]
 
     def elaborate(self, platform: Platform) -> Module:
-- 
2.43.0


From a242ccd63f8bdba703d6b788418b6d99fcb3f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:21 +0000
Subject: [PATCH 35/45] fix: SyncSerialILA in another domain used edge
 detectors clocked by sync

---
 amlib/debug/ila.py | 4 ++--
 amlib/io/spi.py    | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 00868bc..952f242 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -18,7 +18,6 @@ import subprocess
 from abc             import ABCMeta, abstractmethod
 
 from amaranth          import Signal, Module, Cat, Elaboratable, Memory, DomainRenamer, Mux
-from amaranth.hdl.ast  import Rose
 from amaranth.lib.cdc  import FFSynchronizer
 from amaranth.lib.fifo import SyncFIFOBuffered, AsyncFIFOBuffered
 from vcd             import VCDWriter
@@ -27,6 +26,7 @@ from vcd.gtkw        import GTKWSave
 from ..stream         import StreamInterface
 from ..stream.uart    import UARTMultibyteTransmitter
 from ..io.spi         import SPIDeviceInterface, SPIDeviceBus, SPIGatewareTestCase
+from ..utils          import rising_edge_detected
 from ..test.utils     import GatewareTestCase, sync_test_case
 
 
@@ -558,7 +558,7 @@ class SyncSerialILA(Elaboratable):
         selected = Signal()
         m.d.comb += selected.eq(~self.spi.cs if self.cs_idles_high else self.spi.cs)
 
-        transaction_start = Rose(selected)
+        transaction_start = rising_edge_detected(m, selected)
 
         # Connect up our SPI transciever to our public interface.
         interface = SPIDeviceInterface(
diff --git a/amlib/io/spi.py b/amlib/io/spi.py
index afd547b..cea387c 100644
--- a/amlib/io/spi.py
+++ b/amlib/io/spi.py
@@ -15,7 +15,7 @@ from amaranth.hdl.rec  import DIR_FANIN, DIR_FANOUT
 from amaranth.lib.cdc  import FFSynchronizer
 
 from ..test   import GatewareTestCase, sync_test_case
-from ..utils  import SimpleClockDivider
+from ..utils  import SimpleClockDivider, rising_edge_detected, falling_edge_detected
 
 class SPIDeviceBus(Record):
     """ Record representing an SPI bus. """
@@ -246,8 +246,9 @@ class SPIDeviceInterface(Elaboratable):
         # Generate the leading and trailing edge detectors.
         # Note that we use rising and falling edge detectors, but call these leading and
         # trailing edges, as our clock here may have been inverted.
-        leading_edge  = Rose(serial_clock, domain="sync")
-        trailing_edge = Fell(serial_clock, domain="sync")
+        # (Rose and Fell would stay in their clock domain when this device is moved to another one.)
+        leading_edge  = rising_edge_detected(m, serial_clock)
+        trailing_edge = falling_edge_detected(m, serial_clock)
 
         # Determine the sample and output edges based on the SPI clock phase.
         sample_edge = trailing_edge if self.clock_phase else leading_edge
@@ -318,7 +319,7 @@ class SPIDeviceInterface(Elaboratable):
         # with clock phase 0 we need to output the first bit when chip select
         # goes active, because it will be sampled on the leading edge
         if self.clock_phase == 0:
-            with m.If(Rose(chip_selected, domain="sync")):
+            with m.If(rising_edge_detected(m, chip_selected)):
                 output_one_bit(m)
 
         with m.If(chip_selected):
-- 
2.43.0


From 8e9ac6254bd3eae4bf0f1b0ee4b35e3e486db5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 36/45] fix: StreamILA with an output domain of sync read its
 crossing buffer in the capture domain

---
 amlib/debug/ila.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index 952f242..b8fcaf7 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -826,9 +826,18 @@ class StreamILA(Elaboratable):
                         m.d.sync += data_valid.eq(1)
 
 
+        # Convert our sync domain to the domain requested by the user, if necessary.
+        if self.domain != "sync":
+            m = DomainRenamer(self.domain)(m)
+
         # If we're not streaming out of the same domain we're capturing from,
         # we'll add some clock-domain crossing hardware.
         if self._o_domain != self.domain:
+            # The output side must not be moved along with the core, not even if its domain is "sync".
+            core = m
+            m = Module()
+            m.submodules.core = core
+
             in_domain_signals  = Cat(
                 in_domain_stream.first,
                 in_domain_stream.payload,
@@ -844,7 +853,7 @@ class StreamILA(Elaboratable):
             m.submodules.cdc = fifo = AsyncFIFOBuffered(
                 width=len(in_domain_signals),
                 depth=16,
-                w_domain="sync",
+                w_domain=self.domain,
                 r_domain=self._o_domain
             )
 
@@ -860,10 +869,6 @@ class StreamILA(Elaboratable):
                 fifo.r_en               .eq(self.stream.ready)
             ]
 
-        # Convert our sync domain to the domain requested by the user, if necessary.
-        if self.domain != "sync":
-            m = DomainRenamer(self.domain)(m)
-
         return m
 
 class StreamILATest(GatewareTestCase):
-- 
2.43.0


From 22c5f40d194f71c0458673d09dfd752cafb2350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 37/45] fix: I2S transmitter and receiver were one bit late in
 the first left slot

Both took the first rising bit clock edge of the left slot to leave IDLE, so that
the first left word after enabling began one bit late (the receiver lost its most
significant bit), and stayed late for good in slots of one bit more than the sample.
They now wait for a right slot first. The transmitter also checks the FIFO and the
channel of the first sample as it does for all others, and neither starts when
disabled again before the left slot begins.
---
 amlib/io/i2s.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index 736e4ab..da0907d 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -156,18 +156,25 @@ class I2STransmitter(Elaboratable):
 
         with m.FSM(reset="IDLE"):
             with m.State("IDLE"):
+                m.d.sync += tx_shifter.eq(0)
                 with m.If(self.enable_in):
-                    with m.If(bit_clock_rose & left_channel):
+                    with m.If(bit_clock_rose & right_channel):
                         m.next = "WAIT_SYNC"
 
             with m.State("WAIT_SYNC"):
-                with m.If(bit_clock_rose & left_channel):
+                with m.If(~self.enable_in):
+                    m.next = "IDLE"
+                with m.Elif(bit_clock_rose & left_channel):
                     m.next = "LEFT_FALL"
-                    m.d.sync += [
-                        tx_cnt.eq(sample_width),
-                        tx_shifter.eq(Cat(tx_fifo.r_data, offset))
-                    ]
-                    m.d.comb += tx_fifo.r_en.eq(1),
+                    m.d.sync += tx_cnt.eq(sample_width)
+                    with m.If(tx_fifo.r_rdy):
+                        with m.If(first_flag):
+                            m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
+                            m.d.comb += tx_fifo.r_en.eq(1)
+                        with m.Else():
+                            m.d.comb += self.mismatch_out.eq(1)
+                    with m.Else():
+                        m.d.comb += self.underflow_out.eq(1)
 
             # sync should be sampled on rising edge, but data should change on falling edge
             with m.State("LEFT_FALL"):
@@ -392,12 +399,14 @@ class I2SReceiver(Elaboratable):
             with m.State("IDLE"):
                 m.d.sync += rx_buf.eq(0)
                 with m.If(self.enable_in):
-                    with m.If(bit_clock_rose & left_channel):
+                    with m.If(bit_clock_rose & right_channel):
                         m.d.sync += rx_delay_cnt.eq(rx_delay_val)
                         m.next = "WAIT_SYNC"
 
             with m.State("WAIT_SYNC"):
-                with m.If(bit_clock_rose & left_channel):
+                with m.If(~self.enable_in):
+                    m.next = "IDLE"
+                with m.Elif(bit_clock_rose & left_channel):
                     with m.If(rx_delay_cnt > 0):
                         m.d.sync += rx_delay_cnt.eq(rx_delay_cnt - 1)
                         m.next = "WAIT_SYNC"
-- 
2.43.0


From c3243ebeb4b11fd8b6620842a9c43f70f03328e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 38/45] fix: I2S words were shifted when the slots are exactly
 as long as the samples

In the standard format the least significant bit then comes in the first bit clock
of the following slot; the transmitter spent one more bit clock and the receiver
waited for the leading bit once more, so that every word began later than the one before.
---
 amlib/io/i2s.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index da0907d..dbf6763 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -117,6 +117,9 @@ class I2STransmitter(Elaboratable):
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
 
+        # shifts that remain when the least significant bit is on the line
+        tx_spare = 1 if frame_format == I2S_FORMAT.STANDARD else 0
+
         tx_cnt = Signal(range(sample_width + 1))
         tx_shifter = Signal(tx_buf_width - 1)
         sample_msb = fifo_data_width - 1
@@ -212,7 +215,7 @@ class I2STransmitter(Elaboratable):
                         m.next = "IDLE"
                     with m.Else():
                         with m.If(bit_clock_rose):
-                            with m.If((tx_cnt == 0)):
+                            with m.If((tx_cnt == 0) | ((tx_cnt == tx_spare) & right_channel)):
                                 with m.If(right_channel):
                                     m.d.sync += tx_cnt.eq(sample_width),
                                     with m.If(tx_fifo.r_rdy):
@@ -253,7 +256,7 @@ class I2STransmitter(Elaboratable):
                     m.next = "IDLE"
                 with m.Else():
                     with m.If(bit_clock_rose):
-                        with m.If((tx_cnt == 0) & left_channel):
+                        with m.If((tx_cnt <= tx_spare) & left_channel):
                             m.d.sync += tx_cnt.eq(sample_width)
                             with m.If(tx_fifo.r_rdy):
                                 # in RIGHT_WAIT, we wait for the left channel to start
@@ -470,6 +473,9 @@ class I2SReceiver(Elaboratable):
                                 with m.Else():
                                     m.next = "LEFT_WAIT"
                             with m.Elif(rx_cnt > 0):
+                                # the last bit may come after the word clock has flipped
+                                with m.If((rx_cnt == 1) & right_channel):
+                                    m.d.sync += rx_delay_cnt.eq(0)
                                 m.next = "LEFT"
 
             with m.State("RIGHT"):
@@ -500,6 +506,8 @@ class I2SReceiver(Elaboratable):
                                 m.d.sync += rx_delay_cnt.eq(rx_delay_cnt - 1)
                                 m.next = "RIGHT_WAIT"
                         with m.Elif(rx_cnt > 0):
+                            with m.If((rx_cnt == 1) & left_channel):
+                                m.d.sync += rx_delay_cnt.eq(0)
                             m.next =  "RIGHT"
 
         return m
-- 
2.43.0


From ef95cfe3b0d0e026051a706d3929c61038e703ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 39/45] fix: I2S samples of up to 16 bits were glued into FIFO
 words the streams cannot fill

The stream carries one sample per beat, so the left slot was sent as zeros and the
receiver dropped every left sample. All widths now use one FIFO word per sample.
---
 amlib/io/i2s.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index dbf6763..b31dad3 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -105,7 +105,8 @@ class I2STransmitter(Elaboratable):
         frame_format = self._frame_format
 
         fifo_data_width = sample_width
-        concatenate_channels = True
+        # the streams carry one sample per beat, which cannot fill a double width FIFO word
+        concatenate_channels = False
         if concatenate_channels:
             if sample_width <= 16:
                 fifo_data_width = sample_width * 2
@@ -350,7 +351,8 @@ class I2SReceiver(Elaboratable):
         frame_format = self._frame_format
 
         fifo_data_width = sample_width
-        concatenate_channels = True
+        # the streams carry one sample per beat, which cannot fill a double width FIFO word
+        concatenate_channels = False
         if concatenate_channels:
             if sample_width <= 16:
                 fifo_data_width = sample_width * 2
-- 
2.43.0


From bb33b90a896c7a097fedb796b3020d2935153f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 40/45] fix: the left justified I2S transmitter could not be
 elaborated and would have sent every word one bit late

---
 amlib/io/i2s.py | 73 ++++++++++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 37 deletions(-)

diff --git a/amlib/io/i2s.py b/amlib/io/i2s.py
index b31dad3..4349c4e 100644
--- a/amlib/io/i2s.py
+++ b/amlib/io/i2s.py
@@ -114,7 +114,6 @@ class I2STransmitter(Elaboratable):
                 concatenate_channels = False
                 print("I2S warning: sample width greater than 16 bits. your channels can't be glued")
 
-        tx_buf_width = fifo_data_width + 1 if frame_format == I2S_FORMAT.STANDARD else fifo_data_width
         sample_width = sample_width + 1    if frame_format == I2S_FORMAT.STANDARD else sample_width
         offset       = [0]                 if frame_format == I2S_FORMAT.STANDARD else []
 
@@ -122,7 +121,7 @@ class I2STransmitter(Elaboratable):
         tx_spare = 1 if frame_format == I2S_FORMAT.STANDARD else 0
 
         tx_cnt = Signal(range(sample_width + 1))
-        tx_shifter = Signal(tx_buf_width - 1)
+        tx_shifter = Signal(fifo_data_width)
         sample_msb = fifo_data_width - 1
 
         bit_clock  = Signal()
@@ -144,6 +143,12 @@ class I2STransmitter(Elaboratable):
             right_channel.eq(~left_channel)
         ]
 
+        # In the standard format the first bit follows one bit clock after the word clock edge,
+        # left justified words begin together with it.
+        load_edge  = bit_clock_rose if frame_format == I2S_FORMAT.STANDARD else bit_clock_fell
+        load_left  = "LEFT_FALL"    if frame_format == I2S_FORMAT.STANDARD else "LEFT"
+        load_right = "RIGHT_FALL"   if frame_format == I2S_FORMAT.STANDARD else "RIGHT"
+
         m.submodules.tx_fifo = tx_fifo = SyncFIFOBuffered(width=fifo_data_width + 1, depth=self._fifo_depth)
 
         # first marks left channel
@@ -168,8 +173,8 @@ class I2STransmitter(Elaboratable):
             with m.State("WAIT_SYNC"):
                 with m.If(~self.enable_in):
                     m.next = "IDLE"
-                with m.Elif(bit_clock_rose & left_channel):
-                    m.next = "LEFT_FALL"
+                with m.Elif(load_edge & left_channel):
+                    m.next = load_left
                     m.d.sync += tx_cnt.eq(sample_width)
                     with m.If(tx_fifo.r_rdy):
                         with m.If(first_flag):
@@ -215,26 +220,21 @@ class I2STransmitter(Elaboratable):
                     with m.If(~self.enable_in):
                         m.next = "IDLE"
                     with m.Else():
-                        with m.If(bit_clock_rose):
-                            with m.If((tx_cnt == 0) | ((tx_cnt == tx_spare) & right_channel)):
-                                with m.If(right_channel):
-                                    m.d.sync += tx_cnt.eq(sample_width),
-                                    with m.If(tx_fifo.r_rdy):
-                                        # in LEFT_WAIT state, we wait for the
-                                        # right channel to start
-                                        with m.If(~first_flag):
-                                            m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
-                                            m.d.comb += tx_fifo.r_en.eq(1)
-                                        with m.Else():
-                                            m.d.comb += self.mismatch_out.eq(1)
-                                    with m.Else():
-                                        m.d.comb += self.underflow_out.eq(1)
-
-                                    m.next = "RIGHT_FALL"
+                        with m.If(load_edge & right_channel & (tx_cnt <= tx_spare)):
+                            # in LEFT_WAIT state, we wait for the
+                            # right channel to start
+                            m.d.sync += tx_cnt.eq(sample_width),
+                            with m.If(tx_fifo.r_rdy):
+                                with m.If(~first_flag):
+                                    m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
+                                    m.d.comb += tx_fifo.r_en.eq(1)
                                 with m.Else():
-                                    m.next = "LEFT_WAIT"
-                            with m.Elif(tx_cnt > 0):
-                                m.next = "LEFT_FALL"
+                                    m.d.comb += self.mismatch_out.eq(1)
+                            with m.Else():
+                                m.d.comb += self.underflow_out.eq(1)
+                            m.next = load_right
+                        with m.Elif(bit_clock_rose & (tx_cnt > 0)):
+                            m.next = "LEFT_FALL"
 
             # sync should be sampled on rising edge, but data should change on falling edge
             with m.State("RIGHT_FALL"):
@@ -256,21 +256,20 @@ class I2STransmitter(Elaboratable):
                 with m.If(~self.enable_in):
                     m.next = "IDLE"
                 with m.Else():
-                    with m.If(bit_clock_rose):
-                        with m.If((tx_cnt <= tx_spare) & left_channel):
-                            m.d.sync += tx_cnt.eq(sample_width)
-                            with m.If(tx_fifo.r_rdy):
-                                # in RIGHT_WAIT, we wait for the left channel to start
-                                with m.If(first_flag):
-                                    m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
-                                    m.d.comb += tx_fifo.r_en.eq(1)
-                                with m.Else():
-                                    m.d.comb += self.mismatch_out.eq(1)
+                    with m.If(load_edge & left_channel & (tx_cnt <= tx_spare)):
+                        # in RIGHT_WAIT, we wait for the left channel to start
+                        m.d.sync += tx_cnt.eq(sample_width)
+                        with m.If(tx_fifo.r_rdy):
+                            with m.If(first_flag):
+                                m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))
+                                m.d.comb += tx_fifo.r_en.eq(1)
                             with m.Else():
-                                m.d.comb += self.underflow_out.eq(1)
-                            m.next = "LEFT_FALL"
-                        with m.Elif(tx_cnt > 0):
-                            m.next = "RIGHT_FALL"
+                                m.d.comb += self.mismatch_out.eq(1)
+                        with m.Else():
+                            m.d.comb += self.underflow_out.eq(1)
+                        m.next = load_left
+                    with m.Elif(bit_clock_rose & (tx_cnt > 0)):
+                        m.next = "RIGHT_FALL"
 
         return m
 
-- 
2.43.0


From 61b265b4ebd41878c619ebe81056aca9de8a505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 41/45] fix: WS2812 pulse lengths are rounded, not truncated
 twice, so that slow clocks stay inside the data sheet's tolerance

---
 amlib/io/ws2812.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amlib/io/ws2812.py b/amlib/io/ws2812.py
index 66d58e8..e7417b7 100644
--- a/amlib/io/ws2812.py
+++ b/amlib/io/ws2812.py
@@ -21,8 +21,8 @@ class WS2812(Elaboratable):
         # parameters
         self.no_leds           = no_leds
         self.full_cycle_length = sys_clock_freq // 800e3
-        self.low_cycle_length  = int(0.32 * self.full_cycle_length)
-        self.high_cycle_length = int(0.64 * self.full_cycle_length)
+        self.low_cycle_length  = round(0.32 * sys_clock_freq / 800e3)
+        self.high_cycle_length = round(0.64 * sys_clock_freq / 800e3)
         self.reset_length      = int(50e-6 * sys_clock_freq)
         print(f"full cycle: {self.full_cycle_length}")
 
-- 
2.43.0


From ba3b74a6bd4a3f724853498582da5bd5a80760fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 42/45] fix: FixedPointFIRFilter divided the cutoff frequency
 by the samplerate twice

---
 amlib/dsp/fixedpointfirfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amlib/dsp/fixedpointfirfilter.py b/amlib/dsp/fixedpointfirfilter.py
index 3cbeac7..06dafb5 100644
--- a/amlib/dsp/fixedpointfirfilter.py
+++ b/amlib/dsp/fixedpointfirfilter.py
@@ -28,7 +28,7 @@ class FixedPointFIRFilter(Elaboratable):
 
         if type(cutoff_freq) == int:
             cutoff = cutoff_freq / samplerate
-            taps = signal.firwin(filter_order, cutoff, fs=samplerate, pass_zero=filter_type, window='hamming')
+            taps = signal.firwin(filter_order, cutoff_freq, fs=samplerate, pass_zero=filter_type, window='hamming')
         elif type(cutoff_freq) == list and len(cutoff_freq) == 2:
             Fs = samplerate
             Fpb = cutoff_freq[0]
-- 
2.43.0


From fdfd17b1a716566b1194a6d8cb09cd9446ab77f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:53 +0000
Subject: [PATCH 43/45] fix: the GTKWave save file of the ILA listed a clock
 that is not in the dump, and interactive_display ignored add_clock

---
 amlib/debug/ila.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index b8fcaf7..ecaffe6 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -1210,7 +1210,8 @@ class ILAFrontend(metaclass=ABCMeta):
             gtkw.dumpfile(dump_filename)
 
             # If we're adding a clock, add it to the top of the view.
-            gtkw.trace('ila.ila_clock')
+            if add_clock:
+                gtkw.trace('ila.ila_clock')
 
             # Gain more screen space by collapsing the signal tree
             gtkw.sst_expanded(False)
@@ -1235,7 +1236,7 @@ class ILAFrontend(metaclass=ABCMeta):
             vcd_filename = os.path.join(tempfile.gettempdir(), os.urandom(24).hex() + '.vcd')
             gtkw_filename = os.path.join(tempfile.gettempdir(), os.urandom(24).hex() + '.gtkw')
 
-            self.emit_vcd(vcd_filename, gtkw_filename=gtkw_filename)
+            self.emit_vcd(vcd_filename, gtkw_filename=gtkw_filename, add_clock=add_clock)
             subprocess.run(["gtkwave", "-f", vcd_filename, "-a", gtkw_filename])
         finally:
             os.remove(vcd_filename)
-- 
2.43.0


From 622a3c25cf60a1138e18cfd0127065b5fcd46a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:53 +0000
Subject: [PATCH 44/45] fix: StreamILA did not offer its second sample to a
 receiver that waits for valid before it gets ready

---
 amlib/debug/ila.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amlib/debug/ila.py b/amlib/debug/ila.py
index ecaffe6..b387eba 100644
--- a/amlib/debug/ila.py
+++ b/amlib/debug/ila.py
@@ -809,8 +809,8 @@ class StreamILA(Elaboratable):
                 ]
 
                 # Each time the UART accepts a valid word, move on to the next one.
-                with m.If(in_domain_stream.ready):
-                    with m.If(data_valid):
+                with m.If(data_valid):
+                    with m.If(in_domain_stream.ready):
                         m.d.sync += [
                             current_sample_number   .eq(current_sample_number + 1),
                             data_valid              .eq(0),
@@ -822,8 +822,9 @@ class StreamILA(Elaboratable):
                         with m.If(in_domain_stream.last):
                             m.next = "IDLE"
 
-                    with m.Else():
-                        m.d.sync += data_valid.eq(1)
+                # Offer the next sample even to a receiver that waits for it before it gets ready.
+                with m.Else():
+                    m.d.sync += data_valid.eq(1)
 
 
         # Convert our sync domain to the domain requested by the user, if necessary.
-- 
2.43.0


From 625578d42b5cf6f35473ec293ac75e6ef7b7f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 45/45] fix: the resampler offered nothing to a receiver that
 waits for valid before it gets ready

---
 amlib/dsp/resampler.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/amlib/dsp/resampler.py b/amlib/dsp/resampler.py
index 3b5c2b1..3b11640 100644
--- a/amlib/dsp/resampler.py
+++ b/amlib/dsp/resampler.py
@@ -103,27 +103,18 @@ class FractionalResampler(Elaboratable):
 
         m.d.comb += [
             downsamplefifo.w_data.eq(antialiasingfilter.signal_out),
-            self.signal_out.valid.eq(downsamplefifo.r_rdy),
+            # the words we keep are offered whether or not the receiver is ready, the others need no receiver
+            self.signal_out.payload.eq(downsamplefifo.r_data),
+            self.signal_out.valid.eq(downsamplefifo.r_rdy & (downsample_counter == 0)),
         ]
 
-        with m.If(downsamplefifo.r_rdy & self.signal_out.ready):
+        with m.If(downsamplefifo.r_rdy & (self.signal_out.ready | (downsample_counter != 0))):
             m.d.comb += downsamplefifo.r_en.eq(1)
 
             with m.If(downsample_counter == 0):
                 m.d.sync += downsample_counter.eq(self.downsample_factor - 1)
-                m.d.comb += [
-                    self.signal_out.payload.eq(downsamplefifo.r_data),
-                    self.signal_out.valid.eq(1),
-                ]
             with m.Else():
                 m.d.sync += downsample_counter.eq(downsample_counter - 1)
-                m.d.comb += self.signal_out.valid.eq(0)
-
-        with m.Else():
-            m.d.comb += [
-                downsamplefifo.r_en.eq(0),
-                self.signal_out.valid.eq(0),
-            ]
 
         return m
 
-- 
2.43.0

