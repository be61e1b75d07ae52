"""An SRAM whose output is meaningful only in the cycle after a read, like the macros behind --replace-sram."""
from pymtl3 import *
class PulseSram( Component ):
  # read data is there for one cycle only; at any other time the output is noise
  def construct( s, num_bits = 32, num_words = 256 ):
    dtype  = mk_bits( num_bits )
    s.CE1  = InPort ( Bits1 )
    s.WEB1 = InPort ( Bits1 )
    s.OEB1 = InPort ( Bits1 )
    s.CSB1 = InPort ( Bits1 )
    s.A1   = InPort ( mk_bits( clog2( num_words ) ) )
    s.I1   = InPort ( dtype )
    s.O1   = OutPort( dtype )
    s.WBM1 = InPort ( dtype )
    s.ram  = [ Wire( dtype ) for x in range( num_words ) ]
    s.ram_next = [ Wire( dtype ) for x in range( num_words ) ]
    s.dout = Wire( dtype )
    s.dout_next = Wire( dtype )
    s.noise = Wire( dtype )
    s.noise_next = Wire( dtype )
    @update
    def up_noise():
      s.noise_next @= ( ( s.noise << 1 ) ^ ( s.noise >> 3 ) ^ s.I1 ) + 1
    @update
    def up_read():
      s.dout_next @= s.ram[ s.A1 ] if ( ~s.CSB1 & s.WEB1 ) else s.noise
    @update
    def up_write():
      for i in range( num_words ):
        s.ram_next[i] @= s.ram[i]
      for i in range( num_bits ):
        if ~s.CSB1 & ~s.WEB1 & s.WBM1[i]:
          s.ram_next[s.A1][i] @= s.I1[i]
    @update
    def up_out():
      s.O1 @= s.dout if ~s.OEB1 else 0
    @update_ff
    def up_ff():
      s.dout <<= s.dout_next
      s.noise <<= s.noise_next
      for i in range( num_words ):
        s.ram[i] <<= s.ram_next[i]


def install():
  """Put PulseSram wherever a module of the repository refers to the array class."""
  import sys
  import sram
  import blocking_cache.BlockingCacheRTL
  old = sys.modules['sram.SramGenericPRTL'].SramGenericPRTL
  for n, m in list( sys.modules.items() ):
    if n.split('.')[0] in ( 'sram', 'blocking_cache' ):
      for k, v in list( vars( m ).items() ):
        if v is old: setattr( m, k, PulseSram )
