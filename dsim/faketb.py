""" A tensorboardX.SummaryWriter that records what it is given. Installed before coax is imported. """
RECORDS = []      # (writer dir, method, tag, value, step)
FLUSHES = []


class FakeWriter:
    def __init__(self, logdir=None, *args, **kwargs):
        self.logdir = str(logdir)
        self.closed = False

    def add_scalar(self, tag, scalar_value, global_step=None, *args, **kwargs):
        RECORDS.append((self.logdir, 'scalar', tag, float(scalar_value), global_step))

    def add_scalars(self, main_tag, tag_scalar_dict, global_step=None, *args, **kwargs):
        for k, v in tag_scalar_dict.items():
            RECORDS.append((self.logdir, 'scalar', f'{main_tag}/{k}', float(v), global_step))

    def add_histogram(self, tag, values, global_step=None, *args, **kwargs):
        RECORDS.append((self.logdir, 'histogram', tag, list(values), global_step))

    def flush(self):
        FLUSHES.append(self.logdir)

    def close(self):
        self.closed = True

    def __getattr__(self, name):
        if name.startswith('add_'):
            def other(tag=None, value=None, global_step=None, *args, **kwargs):
                RECORDS.append((self.logdir, name[4:], tag, value, global_step))
            return other
        raise AttributeError(name)

    def __reduce__(self):
        raise TypeError("cannot pickle a SummaryWriter")

    def __deepcopy__(self, memo):
        raise TypeError("cannot copy a SummaryWriter")

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()


def install():
    import tensorboardX
    import tensorboardX.writer
    tensorboardX.SummaryWriter = FakeWriter
    tensorboardX.writer.SummaryWriter = FakeWriter


def reset():
    RECORDS.clear()
    FLUSHES.clear()
