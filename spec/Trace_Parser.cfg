SPECIFICATION TSpec
CONSTANTS
  Lang <- TLang
  Text <- TText
  Spi <- TSpi
INVARIANTS InvLex InvText InvBalanced InvTree InvBlocks
