#!/bin/bash
# Nothing to build: check that the interpreter and the library import.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH=/repo /opt/venv/bin/python -B -c "import jax, jax_cosmo; print('jax', jax.__version__, jax_cosmo.__file__)"
