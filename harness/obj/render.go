package obj

import (
	"math"
	"regexp"
	"strconv"
	"strings"

	"vp/trace"
)

// parseTree parses the rendering of a search tree to the list of its lines,
// each with the depth, the kind of branch and the value.
func parseTree(s string) trace.Rec {
	lines := []trace.Rec{}
	if s == "" {
		return trace.Rec{"k": "tree", "lines": lines}
	}
	if !strings.HasSuffix(s, "\n") {
		return trace.Rec{"k": "badrender", "s": s}
	}
	for _, line := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		rs := []rune(line)
		depth := 0
		for len(rs) >= 4 && (string(rs[:4]) == "│   " || string(rs[:4]) == "    ") {
			rs = rs[4:]
			depth++
		}
		if len(rs) < 5 || (string(rs[:4]) != "└── " && string(rs[:4]) != "┌── ") {
			return trace.Rec{"k": "badrender", "s": s}
		}
		v, err := strconv.ParseFloat(string(rs[4:]), 64)
		if err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
			return trace.Rec{"k": "badrender", "s": s}
		}
		lines = append(lines, trace.Rec{"d": depth, "up": rs[0] == '┌', "v": trace.Lim(v)})
	}
	return trace.Rec{"k": "tree", "lines": lines}
}

var laneItem = regexp.MustCompile(`^(\d\.\d{9}e[+-]\d\d+)(-*)`)

// parseLanes parses the rendering of a skip list (of nonnegative values) to the
// values and widths of its lanes, the uppermost lane first.
func parseLanes(s string) trace.Rec {
	bad := trace.Rec{"k": "badrender", "s": s}
	lanes := []trace.Rec{}
	if !strings.HasSuffix(s, "\n") {
		return bad
	}
	for _, line := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		if !strings.HasPrefix(line, "head") {
			return bad
		}
		line = line[4:]
		rest := strings.TrimLeft(line, "-")
		widths := []int{len(line) - len(rest)}
		vals := [][]int{}
		for rest != "tail" {
			m := laneItem.FindStringSubmatch(rest)
			if m == nil {
				return bad
			}
			v, err := strconv.ParseFloat(m[1], 64)
			if err != nil {
				return bad
			}
			vals = append(vals, trace.Lim(v))
			widths = append(widths, len(m[2]))
			rest = rest[len(m[0]):]
		}
		lanes = append(lanes, trace.Rec{"vals": vals, "widths": widths})
	}
	return trace.Rec{"k": "lanes", "lanes": lanes}
}
