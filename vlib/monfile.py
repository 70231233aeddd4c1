"""Instrumented input files: they record reads and seeks and bound them by a logical-step budget."""
import io


class BudgetExceeded(BaseException):
    """The code under test read far more often than any terminating reader would."""


class MonFile(io.BytesIO):
    """In-memory file that counts accesses; optional callback at every read."""

    def __init__(self, data, budget=None, on_read=None):
        super().__init__(data)
        self.size = len(data)
        self.reads = 0
        self.seeks = 0
        self.bytes_read = 0
        self.budget = 40 * len(data) + 20000 if budget is None else budget
        self.on_read = on_read

    def _tick(self):
        if self.reads + self.seeks > self.budget:
            raise BudgetExceeded(f'{self.reads} reads and {self.seeks} seeks on a file of '
                                 f'{self.size} bytes')

    def read(self, *args):
        self.reads += 1
        self._tick()
        if self.on_read is not None:
            self.on_read(self.reads)
        out = super().read(*args)
        self.bytes_read += len(out)
        return out

    def seek(self, *args):
        self.seeks += 1
        self._tick()
        return super().seek(*args)
