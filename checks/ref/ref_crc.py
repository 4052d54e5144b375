"""Reference rules: CRC-16-CCITT (polynomial 0x1021, initial value 0xFFFF) and its placement."""
import binascii, struct

NAMES = ["crc16", "CRC16", "crc16-ccitt", "CRC16-CCITT"]


def crc(data):
    return binascii.crc_hqx(data, 0xFFFF)


def check(data, checksum, tail):
    if checksum not in NAMES: raise ValueError()
    if len(data) < 3: raise ValueError()
    if tail: return struct.unpack("<H", data[-2:])[0] == crc(data[:-2])
    return struct.unpack("<H", data[:2])[0] == crc(data[2:])


def add(data, checksum, tail):
    if checksum not in NAMES: raise ValueError()
    if tail: return data + struct.pack("<H", crc(data))
    return struct.pack("<H", crc(data)) + data


def text(data):
    return "%04X" % crc(data)
