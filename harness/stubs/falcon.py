"""Stand-in for the parts of falcon that web/wsgi.py uses; it is not installed here."""
import functools


class HTTPError(Exception):
    def __init__(self, *args, **kwargs):
        super().__init__(*args)
        self.title = kwargs.get('title', args[0] if args else None)
        self.description = kwargs.get('description', args[1] if len(args) > 1 else None)


class HTTPBadRequest(HTTPError):
    pass


class HTTPNotFound(HTTPError):
    pass


class HTTPMethodNotAllowed(HTTPError):
    pass


class HTTPPayloadTooLarge(HTTPError):
    pass


HTTPRequestEntityTooLarge = HTTPContentTooLarge = HTTPPayloadTooLarge


def before(hook, *hook_args, **hook_kwargs):
    def deco(func):
        @functools.wraps(func)
        def inner(self, req, resp, *args, **kwargs):
            hook(req, resp, self, kwargs, *hook_args, **hook_kwargs)
            return func(self, req, resp, *args, **kwargs)
        return inner
    return deco


class Options(object):
    pass


class API(object):
    def __init__(self, middleware=(), **kwargs):
        self.middleware = list(middleware) if isinstance(middleware, (list, tuple)) else [middleware]
        self.req_options = Options()
        self.resp_options = Options()
        self.routes = {}

    def add_middleware(self, item):
        self.middleware.append(item)

    def add_route(self, path, resource, **kwargs):
        self.routes[path] = resource

    def handle(self, method, path, req, resp):
        """One request as the server would pass it on."""
        for item in self.middleware:
            if hasattr(item, 'process_request'):
                item.process_request(req, resp)
        if len(path) > 1 and path.endswith('/') and getattr(self.req_options, 'strip_url_path_trailing_slash', False):
            path = path[:-1]
        resource = self.routes.get(path)
        if resource is None:
            raise HTTPNotFound(path)
        for item in self.middleware:
            if hasattr(item, 'process_resource'):
                item.process_resource(req, resp, resource, {})
        responder = getattr(resource, 'on_' + method.lower(), None)
        if responder is None:
            raise HTTPMethodNotAllowed(method)
        ok = False
        try:
            responder(req, resp)
            ok = True
        finally:
            for item in self.middleware:
                if hasattr(item, 'process_response'):
                    item.process_response(req, resp, resource, ok)


App = API


def __getattr__(name):
    if name.startswith('HTTP_'):
        return name
    if name.startswith('HTTP'):
        return type(name, (HTTPError,), {})
    raise AttributeError(name)
