"""A loopback web server that serves a dictionary and can cut, stall or refuse
answers; every request is logged."""
import http.server
import threading
import time


class Server:
    def __init__(self):
        self.files = {}          # path -> bytes
        self.faults = {}         # path -> list of faults, one per request
        self.log = []
        self.sent = {}
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = 'HTTP/1.0'

            def do_GET(self):
                path = self.path
                outer.log.append(path)
                body = outer.files.get(path)
                q = outer.faults.get(path) or []
                fault = q.pop(0) if q else None
                try:
                    if body is None or fault == ('missing',):
                        self.send_error(404)
                        return
                    if fault and fault[0] == 'status':
                        self.send_error(fault[1])
                        return
                    if fault and fault[0] == 'drop':
                        self.close_connection = True
                        return
                    self.send_response(200)
                    self.send_header('Content-Length', str(len(body)))
                    self.end_headers()
                    if fault and fault[0] in ('cut', 'stall'):
                        n = int(len(body) * fault[1])
                        self.wfile.write(body[:n])
                        self.wfile.flush()
                        outer.sent[path] = n
                        if fault[0] == 'stall':
                            end = time.time() + fault[2]
                            while time.time() < end:
                                time.sleep(0.02)
                                if outer.closing:
                                    break
                        return
                    if fault and fault[0] == 'slow':
                        k = max(1, len(body) // 20)
                        for i in range(0, len(body), k):
                            self.wfile.write(body[i:i + k])
                            self.wfile.flush()
                            time.sleep(fault[1] / 20)
                        return
                    self.wfile.write(body)
                except (BrokenPipeError, ConnectionResetError):
                    pass

            def log_message(self, *a):
                pass

        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 64

            def handle_error(self, *a):
                pass
        self.closing = False
        self.http = S(('127.0.0.1', 0), H)
        self.port = self.http.server_address[1]
        self.url = f'http://127.0.0.1:{self.port}'
        self.thread = threading.Thread(target=self.http.serve_forever,
                                       kwargs={'poll_interval': 0.02},
                                       daemon=True)
        self.thread.start()

    def close(self):
        self.closing = True
        self.http.shutdown()
        self.http.server_close()
