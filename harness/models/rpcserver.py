"""A stand-in bitcoind on loopback: records every request, answers as told."""
import base64, json, threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer


class Server:
    """handler(method, params) -> raw JSON text of the result, or raises Refuse(code, message)"""
    def __init__(self, handler, chunk=0):
        self.handler = handler
        self.requests = []
        outer = self

        class H(BaseHTTPRequestHandler):
            protocol_version = 'HTTP/1.1'
            disable_nagle_algorithm = True
            wbufsize = -1

            def log_message(self, *a):
                pass

            def do_POST(self):
                n = int(self.headers.get('Content-Length') or 0)
                body = self.rfile.read(n)
                outer.requests.append(dict(path=self.path, headers={k.lower(): v for k, v in self.headers.items()}, body=body))
                try:
                    req = json.loads(body.decode())
                    if isinstance(req, list):
                        text = '[' + ','.join(outer.answer(r) for r in req) + ']'
                    else:
                        text = outer.answer(req)
                    out, status = text.encode('utf8'), 500 if '"result":null,"error":{' in text else 200
                except Exception as e:
                    out, status = json.dumps({'error': {'code': -1, 'message': 'harness: %r' % e}}).encode(), 500
                self.send_response(status)
                self.send_header('Content-Type', 'application/json')
                self.send_header('Content-Length', str(len(out)))
                self.end_headers()
                self.wfile.write(out)
        self.httpd = ThreadingHTTPServer(('127.0.0.1', 0), H)
        self.httpd.daemon_threads = True
        self.port = self.httpd.server_address[1]
        threading.Thread(target=self.httpd.serve_forever, kwargs=dict(poll_interval=0.05), daemon=True).start()

    def answer(self, req):
        try:
            r = self.handler(req['method'], req['params'])
            if r is MISSING:
                return '{"error":null,"id":%s}' % json.dumps(req.get('id'))
            return '{"result":%s,"error":null,"id":%s}' % (r, json.dumps(req.get('id')))
        except Refuse as e:
            return '{"result":null,"error":%s,"id":%s}' % (json.dumps({'code': e.code, 'message': e.message}), json.dumps(req.get('id')))

    def close(self):
        self.httpd.shutdown()
        self.httpd.server_close()


MISSING = object()


class Refuse(Exception):
    def __init__(self, code, message):
        self.code, self.message = code, message


def basic(user, password):
    return 'Basic ' + base64.b64encode(('%s:%s' % (user, password)).encode('utf8')).decode()
