class HTTPBasicAuth:
    def __init__(self, *a): pass
