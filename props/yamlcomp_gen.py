from .yaml_gen import strategy  # noqa
