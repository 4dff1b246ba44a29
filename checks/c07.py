from readers import run  # noqa: F401
