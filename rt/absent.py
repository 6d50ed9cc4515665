"""Stand-ins for packages that are not installed here (vit_jax), so that modules importing them can be run."""
import sys
import types


def install():
  if 'vit_jax' in sys.modules: return
  try:
    import vit_jax  # pylint: disable=g-import-not-at-top
    return
  except ImportError:
    pass
  import flax.linen as nn
  def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m
  import typing
  class Dummy(nn.Module):
    pass
  class IdentityLayer(nn.Module):
    @nn.compact
    def __call__(self, x): return x
  class AddPositionEmbs(nn.Module):
    posemb_init: typing.Any = None
    @nn.compact
    def __call__(self, x):
      return x + self.param('pos_embedding', self.posemb_init, (1, x.shape[1], x.shape[2]))
  class MlpBlock(nn.Module):
    mlp_dim: int
    dtype: typing.Any = None
    out_dim: typing.Any = None
    dropout_rate: float = 0.1
    @nn.compact
    def __call__(self, x, *, deterministic):
      y = nn.Dense(self.mlp_dim, dtype=self.dtype)(x)
      y = nn.Dropout(self.dropout_rate)(nn.gelu(y), deterministic=deterministic)
      y = nn.Dense(self.out_dim or x.shape[-1], dtype=self.dtype)(y)
      return nn.Dropout(self.dropout_rate)(y, deterministic=deterministic)
  have = dict(IdentityLayer=IdentityLayer, AddPositionEmbs=AddPositionEmbs, MlpBlock=MlpBlock)
  def get(name):
    if name.startswith('__'): raise AttributeError(name)
    return have.get(name, Dummy)
  root = mod('vit_jax', __path__=[])
  for n in ('models', 'models_vit', 'models_resnet', 'models_mixer', 'checkpoint', 'utils', 'preprocess'):
    m = mod(f'vit_jax.{n}', __getattr__=get)
    setattr(root, n, m)
