"""Pytree helpers (thin layer over the real jax.tree_util; symbolic arrays are leaves)."""
import jax


def tree_map(f, t, *rest):
  return jax.tree_util.tree_map(f, t, *rest)


def leaves(t):
  return jax.tree_util.tree_leaves(t)
