package main

import (
	"debug/elf"
	"sort"
	"strings"
	"unsafe"
)

type staticSyms struct {
	names []string
	mem   [][]byte
	was   [][]byte
	size  int
}

// staticData finds the library's writable static data in this executable and
// returns a function that records it.
func staticData() func() (*staticSyms, error) {
	return func() (*staticSyms, error) {
		s := &staticSyms{}
		f, err := elf.Open("/proc/self/exe")
		if err != nil {
			return s, err
		}
		defer f.Close()
		syms, err := f.Symbols()
		if err != nil {
			return s, err
		}
		sort.Slice(syms, func(a, b int) bool { return syms[a].Value < syms[b].Value })
		for _, y := range syms {
			if !strings.HasPrefix(y.Name, "github.com/theMPatel/streamvbyte-simdgo/") || y.Size == 0 || int(y.Section) >= len(f.Sections) {
				continue
			}
			sec := f.Sections[y.Section]
			if sec.Flags&elf.SHF_WRITE == 0 || sec.Flags&elf.SHF_ALLOC == 0 || strings.HasSuffix(y.Name, "..inittask") {
				continue
			}
			p := uintptr(y.Value)
			m := unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&p))), int(y.Size))
			s.names = append(s.names, y.Name[strings.LastIndexByte(y.Name, '/')+1:])
			s.mem = append(s.mem, m)
			s.was = append(s.was, append([]byte{}, m...))
			s.size += len(m)
		}
		return s, nil
	}
}

func (s *staticSyms) changed() string {
	for i := range s.mem {
		if string(s.mem[i]) != string(s.was[i]) {
			return s.names[i]
		}
	}
	return ""
}
