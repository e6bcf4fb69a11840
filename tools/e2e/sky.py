import os, signal, socket, subprocess, sys, tempfile, time, shutil
PW = "mypassword12345678"
class Server:
    """the built server, run in a scratch directory"""
    def __init__(self, d, port=0, args=(), pre=""):
        self.d = d
        if not port:
            s = socket.socket(); s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]; s.close()
        self.port = port
        cmd = [os.environ.get("SKYD", "/opt/vp/target/debug/skyd"), "--auth-plugin", "pwd", "--auth-root-password", PW, "--endpoint", f"tcp@127.0.0.1:{port}", "--mode", "dev", *args]
        self.log = open(os.path.join(d, "log"), "ab")
        self.p = subprocess.Popen(["bash", "-c", pre + (" " if pre.startswith("exec") else " exec ") + "\"$@\"", "x", *cmd], cwd=d, stdout=self.log, stderr=self.log)
        for _ in range(200):
            try: socket.create_connection(("127.0.0.1", port)).close(); return
            except OSError:
                if self.p.poll() is not None: return
                time.sleep(.05)
    def alive(self): return self.p.poll() is None
    def stop(self, t=30):
        self.p.send_signal(signal.SIGTERM)
        try: return self.p.wait(t)
        except subprocess.TimeoutExpired: self.p.kill(); self.p.wait(); return None
    def kill(self): self.p.kill(); self.p.wait()
    def fsize(self, n): subprocess.check_call(["prlimit", f"--pid={self.p.pid}", f"--fsize={n}:unlimited"])
    def logs(self): return open(os.path.join(self.d, "log"), errors="replace").read()
class Conn:
    def __init__(self, port, user="root", pw=PW, t=10):
        self.s = socket.create_connection(("127.0.0.1", port)); self.s.settimeout(t)
        self.s.sendall(b"H\0\0\0\0\0%d\n%d\n" % (len(user), len(pw)) + user.encode() + pw.encode())
        self.hs = self.s.recv(64)
    def q(self, query, *params):
        ps = b"".join(params)
        w = b"%d\n" % len(query)
        body = w + query.encode() + ps
        self.s.sendall(b"S%d\n" % len(body) + body)
        return self.s.recv(65536)
def uint(n): return b"\x02%d\n" % n
def sint(n): return b"\x03%d\n" % n
def string(s): s = s if isinstance(s, bytes) else s.encode(); return b"\x06%d\n" % len(s) + s
