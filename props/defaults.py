"""The documented defaults of constructor parameters. given() leaves out every argument that has its default value, so that
the checks also notice when a default changes."""
SERIAL = dict(data_bits=8, parity="none")
SPI = dict(word_size=8, clock_polarity=0, clock_phase=0, msb_first=True, cs_idles_high=False, skip_input_cdc=False)
SPIREG = dict(address_size=15, register_size=32, default_read_value=0)
SPICMD = dict(command_size=8, word_size=32)
I2C = dict(clk_stretch=True)
I2S = dict(fifo_depth=16)
EVENT = dict(mode="level")
TIMER = dict(width=32, allow_restart=True)
ROM = dict(data_width=32, granularity=8)
RAM = dict(data_width=32, granularity=8, init=None, read_only=False, byteorder="little")
STREAM = dict(payload_width=8, valid_width=1)
ILA = dict(domain="sync", samples_pretrigger=1, with_enable=False)
SILA = dict(domain="sync", samples_pretrigger=1, clock_polarity=0, clock_phase=1, cs_idles_high=False)
CROSSING = dict(o_domain="sync", stages=2)
DOMAIN = dict(domain="sync")
GEN = dict(domain="sync", data_width=8, data_endianness="little")
DSP = dict(bitwidth=18, fraction_width=18, cutoff_freq=20000)
RESAMPLER = dict(filter_structure="fir", filter_instances=1, filter_order=24, filter_cutoff=20000, bitwidth=16, prescale=None)
CIC = dict(bitwidth=18, filter_stage=4, decimation=12)
HB = dict(bitwidth=18, fraction_width=18, filter_order=19, mac_loop=False)
FFT = dict(bitwidth=16, pts=1024)
SEG = dict(width=32, register=False)
LEDS = dict(init_delay=16e6, no_modules=1)
WINDOW = dict(granularity=None, features=frozenset(), alignment=0)
BRIDGE = dict(data_width=8, granularity=None, features=frozenset(), alignment=0)
UARTSER = dict(rx_depth=16, tx_depth=16, data_bits=8, parity="none")


def given(defaults, **kw):
    missing = object()
    out = {}
    for k, v in kw.items():
        d = defaults.get(k, missing)
        if d is missing or type(d) is not type(v) or d != v:
            out[k] = v
    return out
