// Wire format shared by every NTT deployment (the EVM and Solana sides must agree).
// A byte string is a list of segments; Ref names a 32-byte address or key that the
// conformance driver resolves, everything else is explicit bytes.
module ntt_wire {
  type Seg = B(List[int]) | Ref(str)

  // n in `w` bytes, big endian
  pure def be(n: int, w: int): List[int] =
    range(0, w).foldl([], (acc, i) => acc.append((n / 256^(w - 1 - i)) % 256))

  pure val TM_PREFIX: List[int] = [153, 69, 255, 16]       // 0x9945FF10
  pure val NTT_PREFIX: List[int] = [153, 78, 84, 84]       // 0x994E5454
  pure val INFO_PREFIX: List[int] = [156, 35, 189, 59]     // 0x9C23BD3B
  pure val PEER_PREFIX: List[int] = [24, 252, 103, 194]    // 0x18FC67C2

  // prefix(4) decimals(1) amount(8) token(32) to(32) chain(2)
  pure val NTT_LEN: int = 79
  // id(32) sender(32) len(2) + NTT_LEN
  pure val MGR_LEN: int = 145

  // An NTT transfer message as delivered by a transceiver.
  type Msg = {
    srcMgr: str, rcptMgr: str, id: str, sender: str,
    dec: int, amt: int, tok: str, to: str, toChain: int
  }

  pure def encNtt(prefix: List[int], m: Msg): List[Seg] = [
    B(prefix.concat(be(m.dec, 1)).concat(be(m.amt, 8))),
    Ref(m.tok), Ref(m.to), B(be(m.toChain, 2)) ]

  pure def encMgr(prefix: List[int], innerLen: int, m: Msg): List[Seg] =
    [Ref(m.id), Ref(m.sender), B(be(innerLen, 2))].concat(encNtt(prefix, m))

  pure def encTm(m: Msg): List[Seg] =
    [B(TM_PREFIX), Ref(m.srcMgr), Ref(m.rcptMgr), B(be(MGR_LEN, 2))]
      .concat(encMgr(NTT_PREFIX, NTT_LEN, m))
      .concat([B(be(0, 2))])

  // A possibly malformed rendering of `m`.
  type Mangle = {
    p1: List[int],        // transceiver prefix
    p2: List[int],        // transfer prefix
    len1: int, len2: int, // declared inner lengths
    pl: List[int],        // transceiver payload
    trail: List[int],     // bytes after the end
    cut: int              // bytes removed from the end
  }
  pure val WELL_FORMED: Mangle =
    { p1: TM_PREFIX, p2: NTT_PREFIX, len1: MGR_LEN, len2: NTT_LEN, pl: [], trail: [], cut: 0 }

  pure def encMangled(m: Msg, x: Mangle): List[Seg] =
    [B(x.p1), Ref(m.srcMgr), Ref(m.rcptMgr), B(be(x.len1, 2))]
      .concat(encMgr(x.p2, x.len2, m))
      .concat([B(be(x.pl.length(), 2).concat(x.pl).concat(x.trail))])

  // The decoder insists on both prefixes and on every byte it reads being there.
  // It does not check the declared inner lengths, nor that the input ends where the
  // message does (a deliberate leniency of the implementation, see DESIGN.md).
  pure def decodable(x: Mangle): bool = and {
    x.p1 == TM_PREFIX,
    x.p2 == NTT_PREFIX,
    x.cut <= x.trail.length()
  }

  pure def encInfo(mgr: str, modeByte: int, tok: str, dec: int): List[Seg] =
    [B(INFO_PREFIX), Ref(mgr), B([modeByte]), Ref(tok), B([dec])]

  pure def encPeerInfo(chain: int, addr: str): List[Seg] =
    [B(PEER_PREFIX.concat(be(chain, 2))), Ref(addr)]
}
