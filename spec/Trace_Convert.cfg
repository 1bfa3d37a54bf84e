SPECIFICATION TSpec
CONSTANTS
  Lang <- TLang
  Text <- TText
  Spi <- TSpi
INVARIANTS InvConvertText
