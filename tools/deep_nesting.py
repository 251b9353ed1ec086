"""Known finding P03: exit 1 while extremely deep nesting still overflows the native stack."""
import subprocess, sys
def nest(n):
    d = b""
    for _ in range(n):
        l = len(d)
        d = b"\x70" + (bytes([l]) if l < 128 else bytes([0x81, l]) if l < 256 else bytes([0x82, l >> 8, l & 255])) + d
    return d
r = subprocess.run(["prlimit", "--core=0", "--stack=8388608:8388608", sys.argv[1], "--ber-tlv", nest(12000).hex()], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
print(r.returncode, r.stderr[-200:])
sys.exit(1 if r.returncode < 0 else 0)
