"""Brings the loopback interface of a network namespace up."""
import fcntl
import socket
import struct
s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
fcntl.ioctl(s, 0x8914, struct.pack("16sh", b"lo", 0x1 | 0x40))
