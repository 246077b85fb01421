package cli

import "unicode/utf8"

// Cell is one character of a terminal's screen.
type Cell struct {
	R     rune
	Faint bool
}

// Screen is what a terminal of that size shows after some output. It knows
// the common ANSI sequences; others are ignored as terminals do.
type Screen struct {
	Cols, Rows   int
	Grid         [][]Cell
	X, Y         int
	faint        bool
	savedX       int
	savedY       int
	pending      bool // the cursor stands behind the last column
	rest         []byte
	everScrolled int
}

// NewScreen gives an empty screen.
func NewScreen(cols, rows int) *Screen {
	s := &Screen{Cols: cols, Rows: rows}
	for i := 0; i < rows; i++ {
		s.Grid = append(s.Grid, make([]Cell, cols))
	}
	return s
}

func (s *Screen) lineFeed() {
	if s.Y+1 < s.Rows {
		s.Y++
		return
	}
	s.everScrolled++
	s.Grid = append(s.Grid[1:], make([]Cell, s.Cols))
}

func (s *Screen) put(r rune) {
	if s.pending {
		s.pending = false
		s.X = 0
		s.lineFeed()
	}
	s.Grid[s.Y][s.X] = Cell{r, s.faint}
	if s.X+1 < s.Cols {
		s.X++
	} else {
		s.pending = true
	}
}

func (s *Screen) erase(y, from, to int) {
	for x := from; x < to; x++ {
		s.Grid[y][x] = Cell{}
	}
}

func clamp(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func (s *Screen) csi(params []int, cmd byte) {
	p := func(i, def int) int {
		if i < len(params) && params[i] > 0 {
			return params[i]
		}
		return def
	}
	raw := 0
	if len(params) > 0 {
		raw = params[0]
	}
	s.pending = s.pending && cmd == 'm'
	switch cmd {
	case 'm':
		if len(params) == 0 {
			s.faint = false
		}
		for i := 0; i < len(params); i++ {
			switch params[i] {
			case 0, 22:
				s.faint = false
			case 2:
				s.faint = true
			case 38, 48: // colours with arguments
				i = len(params)
			}
		}
	case 'A':
		s.Y = clamp(s.Y-p(0, 1), 0, s.Rows-1)
	case 'B':
		s.Y = clamp(s.Y+p(0, 1), 0, s.Rows-1)
	case 'C':
		s.X = clamp(s.X+p(0, 1), 0, s.Cols-1)
	case 'D':
		s.X = clamp(s.X-p(0, 1), 0, s.Cols-1)
	case 'E':
		s.X, s.Y = 0, clamp(s.Y+p(0, 1), 0, s.Rows-1)
	case 'F':
		s.X, s.Y = 0, clamp(s.Y-p(0, 1), 0, s.Rows-1)
	case 'G':
		s.X = clamp(p(0, 1)-1, 0, s.Cols-1)
	case 'd':
		s.Y = clamp(p(0, 1)-1, 0, s.Rows-1)
	case 'H', 'f':
		s.Y, s.X = clamp(p(0, 1)-1, 0, s.Rows-1), clamp(p(1, 1)-1, 0, s.Cols-1)
	case 'K':
		switch raw {
		case 0:
			s.erase(s.Y, s.X, s.Cols)
		case 1:
			s.erase(s.Y, 0, s.X+1)
		case 2:
			s.erase(s.Y, 0, s.Cols)
		}
	case 'J':
		switch raw {
		case 0:
			s.erase(s.Y, s.X, s.Cols)
			for y := s.Y + 1; y < s.Rows; y++ {
				s.erase(y, 0, s.Cols)
			}
		case 1:
			s.erase(s.Y, 0, s.X+1)
			for y := 0; y < s.Y; y++ {
				s.erase(y, 0, s.Cols)
			}
		case 2, 3:
			for y := 0; y < s.Rows; y++ {
				s.erase(y, 0, s.Cols)
			}
		}
	case 'P': // delete characters
		n := clamp(p(0, 1), 0, s.Cols-s.X)
		copy(s.Grid[s.Y][s.X:], s.Grid[s.Y][s.X+n:])
		s.erase(s.Y, s.Cols-n, s.Cols)
	case 'X':
		s.erase(s.Y, s.X, clamp(s.X+p(0, 1), 0, s.Cols))
	case 'M': // delete lines
		for n := clamp(p(0, 1), 0, s.Rows-s.Y); n > 0; n-- {
			copy(s.Grid[s.Y:], s.Grid[s.Y+1:])
			s.Grid[s.Rows-1] = make([]Cell, s.Cols)
		}
	case 's':
		s.savedX, s.savedY = s.X, s.Y
	case 'u':
		s.X, s.Y = s.savedX, s.savedY
	}
}

// Write shows some output.
func (s *Screen) Write(b []byte) {
	b = append(s.rest, b...)
	s.rest = nil
	for len(b) > 0 {
		switch {
		case b[0] == 0x1b:
			if len(b) < 2 {
				s.rest = append([]byte{}, b...)
				return
			}
			if b[1] != '[' {
				switch b[1] {
				case '7':
					s.savedX, s.savedY = s.X, s.Y
				case '8':
					s.X, s.Y, s.pending = s.savedX, s.savedY, false
				}
				b = b[2:]
				continue
			}
			i := 2
			for i < len(b) && (b[i] < 0x40 || b[i] > 0x7e) {
				i++
			}
			if i >= len(b) {
				s.rest = append([]byte{}, b...)
				return
			}
			var params []int
			if i > 2 {
				params = []int{0}
				for _, ch := range b[2:i] {
					switch {
					case ch == ';':
						params = append(params, 0)
					case ch >= '0' && ch <= '9' && params[len(params)-1] < 100000:
						params[len(params)-1] = params[len(params)-1]*10 + int(ch-'0')
					}
				}
			}
			s.csi(params, b[i])
			b = b[i+1:]
		case b[0] == '\r':
			s.X, s.pending = 0, false
			b = b[1:]
		case b[0] == '\n':
			s.pending = false
			s.lineFeed()
			b = b[1:]
		case b[0] == '\b':
			if s.X > 0 && !s.pending {
				s.X--
			}
			s.pending = false
			b = b[1:]
		case b[0] == '\t':
			s.X = clamp((s.X/8+1)*8, 0, s.Cols-1)
			b = b[1:]
		case b[0] < 0x20 || b[0] == 0x7f:
			b = b[1:]
		default:
			if !utf8.FullRune(b) {
				s.rest = append([]byte{}, b...)
				return
			}
			r, n := utf8.DecodeRune(b)
			s.put(r)
			b = b[n:]
		}
	}
}

// Text of some cells, without trailing blanks.
func text(cells []Cell) string {
	var out []rune
	for _, c := range cells {
		if c.R == 0 {
			c.R = ' '
		}
		out = append(out, c.R)
	}
	for len(out) > 0 && out[len(out)-1] == ' ' {
		out = out[:len(out)-1]
	}
	return string(out)
}

// Line shows a row.
func (s *Screen) Line(y int) string { return text(s.Grid[y]) }

// Before and After are the parts of the cursor's row.
func (s *Screen) Before() string {
	var out []rune
	for _, c := range s.Grid[s.Y][:s.X] {
		if c.R == 0 {
			c.R = ' '
		}
		out = append(out, c.R)
	}
	return string(out)
}

// After is what stands from the cursor on.
func (s *Screen) After() string { return text(s.Grid[s.Y][s.X:]) }

// Lines shows the screen.
func (s *Screen) Lines() []string {
	var l []string
	for y := range s.Grid {
		l = append(l, s.Line(y))
	}
	for len(l) > 0 && l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	return l
}

// TTYFrom returns what the terminal displayed from that byte on.
func (s *Session) TTYFrom(n int) []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte{}, s.tty.Bytes()[n:]...)
}
