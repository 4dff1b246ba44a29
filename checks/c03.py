import runtime
def run(prop, replay=None):
    runtime.run(prop, replay=replay)
