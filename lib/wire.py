"""MQTT 3.1.1 packets as bytes."""
import struct


def enc_len(n):
    b = bytearray()
    while True:
        d, n = n % 128, n // 128
        b.append(d | (128 if n else 0))
        if not n:
            return bytes(b)


def mstr(x):
    if isinstance(x, str):
        x = x.encode()
    return struct.pack('>H', len(x)) + x


def packet(first, body):
    return bytes([first]) + enc_len(len(body)) + body


def connect(cid, user=None, pw=None, clean=True, keepalive=60, will=None, name='MQTT', level=4, flags=None):
    """will: (topic, payload, qos, retain)"""
    f = 2 if clean else 0
    p = mstr(cid)
    if will is not None:
        f |= 4 | will[2] << 3 | (32 if will[3] else 0)
        p += mstr(will[0]) + mstr(will[1])
    if user is not None:
        f |= 128
        p += mstr(user)
    if pw is not None:
        f |= 64
        p += mstr(pw)
    return packet(0x10, mstr(name) + bytes([level, f if flags is None else flags]) + struct.pack('>H', keepalive) + p)


def publish_head(topic, size, qos=0, pid=1, dup=0, retain=0):
    """everything before a payload of the given size"""
    v = mstr(topic) + (struct.pack('>H', pid) if qos else b'')
    return bytes([0x30 | dup << 3 | qos << 1 | retain]) + enc_len(len(v) + size) + v


def publish(topic, payload, **k):
    return publish_head(topic, len(payload), **k) + payload


def subscribe(pid, filters, qos=None):
    q = qos or [0] * len(filters)
    return packet(0x82, struct.pack('>H', pid) + b''.join(mstr(f) + bytes([x]) for f, x in zip(filters, q)))


def unsubscribe(pid, filters):
    return packet(0xa2, struct.pack('>H', pid) + b''.join(mstr(f) for f in filters))


def ack(kind, pid):
    return packet({'puback': 0x40, 'pubrec': 0x50, 'pubrel': 0x62, 'pubcomp': 0x70}[kind], struct.pack('>H', pid))


PINGREQ = b'\xc0\x00'
PINGRESP = b'\xd0\x00'
DISCONNECT = b'\xe0\x00'


def connack(code, sp=0):
    return bytes([0x20, 2, sp, code])


def suback(pid, n):
    return packet(0x90, struct.pack('>H', pid) + bytes(n))


def unsuback(pid):
    return packet(0xb0, struct.pack('>H', pid))
