//go:build linux && amd64

package main

// The common instructions of the read-only text, decoded once.

const (
	oSlow = iota
	oNop
	oAddu
	oDaddu
	oSubu
	oDsubu
	oAnd
	oOr
	oXor
	oNor
	oSlt
	oSltu
	oAddiu
	oDaddiu
	oSlti
	oSltiu
	oAndi
	oOri
	oXori
	oLui
	oSll
	oSrl
	oSra
	oSllv
	oSrlv
	oSrav
	oDsll
	oDsrl
	oDsra
	oDsllv
	oDsrlv
	oMovz
	oMovn
	oMul
	oMultu
	oMfhi
	oMflo
	oLb
	oLbu
	oLh
	oLhu
	oLw
	oLwu
	oLd
	oSb
	oSh
	oSw
	oSd
	oBeq
	oBne
	oBlez
	oBgtz
	oBltz
	oBgez
	oJ
	oJal
	oJr
	oJalr
	oTrap
)

type insn struct {
	op         uint8
	rs, rt, rd uint8
	imm        uint64 // immediate, shift or branch target
}

var (
	code   []insn
	codeLo uint64
)

var special = map[uint32]uint8{0x21: oAddu, 0x20: oAddu, 0x2d: oDaddu, 0x2c: oDaddu, 0x23: oSubu, 0x22: oSubu, 0x2f: oDsubu, 0x2e: oDsubu,
	0x24: oAnd, 0x25: oOr, 0x26: oXor, 0x27: oNor, 0x2a: oSlt, 0x2b: oSltu, 0x00: oSll, 0x03: oSra, 0x04: oSllv, 0x07: oSrav,
	0x38: oDsll, 0x3b: oDsra, 0x3c: oDsll, 0x3f: oDsra, 0x14: oDsllv, 0x0a: oMovz, 0x0b: oMovn, 0x10: oMfhi, 0x12: oMflo}

var plain = map[uint32]uint8{9: oAddiu, 8: oAddiu, 25: oDaddiu, 24: oDaddiu, 10: oSlti, 11: oSltiu, 12: oAndi, 13: oOri, 14: oXori, 15: oLui,
	32: oLb, 36: oLbu, 33: oLh, 37: oLhu, 35: oLw, 39: oLwu, 55: oLd, 40: oSb, 41: oSh, 43: oSw, 63: oSd}

func decode(lo, hi uint64) {
	codeLo = lo
	code = make([]insn, (hi-lo)/4+2)
	for a := lo; a < hi; a += 4 {
		w := uint32(ld32(a))
		d := &code[(a-lo)/4]
		d.rs, d.rt, d.rd = uint8(w>>21&31), uint8(w>>16&31), uint8(w>>11&31)
		sa := uint64(w >> 6 & 31)
		d.imm = uint64(int64(int16(w)))
		target := a + 4 + d.imm<<2
		delayed := a+4 < hi && ld32(a+4) == 0 // nothing in the delay slot
		op := w >> 26
		switch {
		case w == 0 || op == 0 && w&63 == 0x0f:
			d.op = oNop
		case op == 0:
			f := w & 63
			d.op = special[f]
			d.imm = sa
			switch f {
			case 0x3c, 0x3f:
				d.imm += 32
			case 0x02:
				if d.rs == 0 {
					d.op = oSrl
				}
			case 0x3a, 0x3e:
				if d.rs == 0 {
					d.op = oDsrl
					if f == 0x3e {
						d.imm += 32
					}
				}
			case 0x06:
				if sa == 0 {
					d.op = oSrlv
				}
			case 0x16:
				if sa == 0 {
					d.op = oDsrlv
				}
			case 0x08:
				if delayed {
					d.op = oJr
				}
				continue
			case 0x09:
				if delayed && d.rd != 0 {
					d.op = oJalr
				}
				continue
			case 0x19:
				d.op = oMultu
				continue
			case 0x34:
				d.op = oTrap
				continue
			}
			if d.rd == 0 && d.op != oSlow {
				d.op = oNop
			}
		case op == 28 && w&63 == 2 && d.rd != 0:
			d.op = oMul
		case op == 1 && d.rt <= 1 && delayed:
			d.op = oBltz + d.rt
			d.imm = target
		case op >= 4 && op <= 7 && delayed:
			d.op = oBeq + uint8(op-4)
			d.imm = target
		case (op == 2 || op == 3) && delayed:
			d.op = oJ + uint8(op-2)
			d.imm = (a+4)&^0x0fffffff | uint64(w&0x03ffffff)<<2
		default:
			d.op = plain[op]
			switch {
			case op == 15:
				d.imm = sx(uint64(w) << 16)
			case op >= 12 && op <= 14:
				d.imm = uint64(uint16(w))
			}
			if (op < 40 || op == 55) && d.rt == 0 && d.op != oSlow {
				d.op = oSlow
			}
		}
	}
}

// run executes about n instructions; it returns when the thread cannot go on.
func (t *thread) run(n int) {
	r := &t.r
	mask := ^uint64(0)
	if !is64 {
		mask = 0xffffffff
	}
	i := uint64(0)
	defer func() {
		if e := recover(); e != nil {
			giveUp("pc %#x or %#x: %v", t.pc, codeLo+4*i, e)
		}
	}()
	for n > 0 {
		if t.npc != t.pc+4 || t.pc < codeLo || t.pc >= codeLo+4*uint64(len(code)-1) {
			t.step(1)
			n--
			if t.finished || t.waiting != 0 || t.asleep {
				return
			}
			continue
		}
		i = (t.pc - codeLo) / 4
		start := n
	fast:
		for ; n > 0; n-- {
			if i >= uint64(len(code)) {
				break
			}
			d := &code[i]
			rs, rt, rd := d.rs&31, d.rt&31, d.rd&31
			c := false
			switch d.op {
			case oSlow:
				break fast
			case oNop:
			case oAddu:
				r[rd] = sx(r[rs] + r[rt])
			case oDaddu:
				r[rd] = r[rs] + r[rt]
			case oSubu:
				r[rd] = sx(r[rs] - r[rt])
			case oDsubu:
				r[rd] = r[rs] - r[rt]
			case oAnd:
				r[rd] = r[rs] & r[rt]
			case oOr:
				r[rd] = r[rs] | r[rt]
			case oXor:
				r[rd] = r[rs] ^ r[rt]
			case oNor:
				r[rd] = ^(r[rs] | r[rt])
			case oSlt:
				r[rd] = b2u(int64(r[rs]) < int64(r[rt]))
			case oSltu:
				r[rd] = b2u(r[rs] < r[rt])
			case oAddiu:
				r[rt] = sx(r[rs] + d.imm)
			case oDaddiu:
				r[rt] = r[rs] + d.imm
			case oSlti:
				r[rt] = b2u(int64(r[rs]) < int64(d.imm))
			case oSltiu:
				r[rt] = b2u(r[rs] < d.imm)
			case oAndi:
				r[rt] = r[rs] & d.imm
			case oOri:
				r[rt] = r[rs] | d.imm
			case oXori:
				r[rt] = r[rs] ^ d.imm
			case oLui:
				r[rt] = d.imm
			case oSll:
				r[rd] = sx(r[rt] << (d.imm & 31))
			case oSrl:
				r[rd] = sx(uint64(uint32(r[rt]) >> (d.imm & 31)))
			case oSra:
				r[rd] = uint64(int64(int32(r[rt])) >> (d.imm & 31))
			case oSllv:
				r[rd] = sx(r[rt] << (r[rs] & 31))
			case oSrlv:
				r[rd] = sx(uint64(uint32(r[rt]) >> (r[rs] & 31)))
			case oSrav:
				r[rd] = uint64(int64(int32(r[rt])) >> (r[rs] & 31))
			case oDsll:
				r[rd] = r[rt] << (d.imm & 63)
			case oDsrl:
				r[rd] = r[rt] >> (d.imm & 63)
			case oDsra:
				r[rd] = uint64(int64(r[rt]) >> (d.imm & 63))
			case oDsllv:
				r[rd] = r[rt] << (r[rs] & 63)
			case oDsrlv:
				r[rd] = r[rt] >> (r[rs] & 63)
			case oMovz:
				if r[rt] == 0 {
					r[rd] = r[rs]
				}
			case oMovn:
				if r[rt] != 0 {
					r[rd] = r[rs]
				}
			case oMul:
				r[rd] = sx(r[rs] * r[rt])
			case oMultu:
				p := uint64(uint32(r[rs])) * uint64(uint32(r[rt]))
				t.lo, t.hi = sx(p), sx(p>>32)
			case oMfhi:
				r[rd] = t.hi
			case oMflo:
				r[rd] = t.lo
			case oLb:
				r[rt] = uint64(int64(int8(ld8(r[rs] + d.imm))))
			case oLbu:
				r[rt] = ld8(r[rs] + d.imm)
			case oLh:
				r[rt] = uint64(int64(int16(ld16(r[rs] + d.imm))))
			case oLhu:
				r[rt] = ld16(r[rs] + d.imm)
			case oLw:
				r[rt] = sx(ld32(r[rs] + d.imm))
			case oLwu:
				r[rt] = ld32(r[rs] + d.imm)
			case oLd:
				r[rt] = ld64(r[rs] + d.imm)
			case oSb:
				st8(r[rs]+d.imm, r[rt])
			case oSh:
				st16(r[rs]+d.imm, r[rt])
			case oSw:
				st32(r[rs]+d.imm, r[rt])
			case oSd:
				st64(r[rs]+d.imm, r[rt])
			case oTrap:
				if r[rs] == r[rt] {
					break fast
				}
			case oBeq:
				c = r[rs] == r[rt]
				goto branch
			case oBne:
				c = r[rs] != r[rt]
				goto branch
			case oBlez:
				c = int64(r[rs]) <= 0
				goto branch
			case oBgtz:
				c = int64(r[rs]) > 0
				goto branch
			case oBltz:
				c = int64(r[rs]) < 0
				goto branch
			case oBgez:
				c = int64(r[rs]) >= 0
				goto branch
			case oJ:
				i = (d.imm - codeLo) / 4
				continue
			case oJal:
				r[31] = codeLo + 4*i + 8
				i = (d.imm - codeLo) / 4
				continue
			case oJr:
				i = (r[rs]&mask - codeLo) / 4
				continue
			case oJalr:
				to := r[rs] & mask
				r[rd] = codeLo + 4*i + 8
				i = (to - codeLo) / 4
				continue
			}
			i++
			continue
		branch:
			if c {
				i = (d.imm - codeLo) / 4
			} else {
				i += 2
			}
		}
		t.pc = codeLo + 4*i
		t.npc = t.pc + 4
		if n > 0 && (n == start || code[min(i, uint64(len(code)-1))].op == oSlow || code[min(i, uint64(len(code)-1))].op == oTrap) {
			t.step(1)
			n--
			if t.finished || t.waiting != 0 || t.asleep {
				return
			}
		}
	}
}
