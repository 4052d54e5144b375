class RefQueue:
    """Unbounded first-in first-out queue, as queue.Queue used from one thread at a time."""

    def __init__(self, maxsize=0):
        self.entries = []

    def put(self, item, block=True, timeout=None):
        self.entries.append(item)

    def put_nowait(self, item):
        self.entries.append(item)

    def qsize(self):
        return len(self.entries)

    def empty(self):
        return len(self.entries) == 0

    def get(self, block=True, timeout=None):
        if len(self.entries) == 0:
            import queue
            raise queue.Empty()
        return self.entries.pop(0)

    def get_nowait(self):
        return self.get()

    def task_done(self):
        pass
