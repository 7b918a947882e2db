package main

import (
	"strconv"
	"strings"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/position"
	"github.com/recolude/rap/internal/vsym"
)

var columns = [6]string{"id", "name", "time", "x", "y", "z"}

// letter is one of n letters from a on.
func letter(name string, n int) string {
	b := vsym.Bytes(name, 1)
	vsym.Assume(b[0] >= 'a')
	vsym.Assume(b[0] < 'a'+byte(n))
	return string(b)
}

// digits is a number of n decimal digits and its value.
func digits(name string, n int) (string, float64) {
	b := vsym.Bytes(name, n)
	v := 0
	for _, c := range b {
		vsym.Assume(c >= '0')
		vsym.Assume(c <= '9')
		v = v*10 + int(c-'0')
	}
	return string(b), float64(v)
}

type csvRow struct {
	id, name string
	nums     [4]float64 // time, x, y, z
}

// checkRows compares an import with the rows it must hold.
func checkRows(data string, rows []csvRow) {
	rec, err := RecordingFromCSV(strings.NewReader(data))
	vsym.Assert(err == nil, "valid table accepted")
	if err != nil {
		return
	}
	checkSubs(rec.Recordings(), rows)
}

func checkSubs(subs []format.Recording, rows []csvRow) {
	total := 0
	for i, s := range subs {
		for j := 0; j < i; j++ {
			vsym.Assert(subs[j].ID() != s.ID() || subs[j].Name() != s.Name(), "one recording per pair")
		}
		cs := s.CaptureCollections()
		vsym.Assert(len(cs) == 1, "one collection")
		if len(cs) != 1 {
			return
		}
		_, isPos := cs[0].(position.Collection)
		vsym.Assert(isPos, "a position collection")
		vsym.Assert(cs[0].Length() > 0 && len(cs[0].Captures()) == cs[0].Length(), "captures")
		k := 0
		for _, r := range rows {
			if r.id != s.ID() || r.name != s.Name() {
				continue
			}
			if k < cs[0].Length() {
				c := cs[0].CaptureAt(k).(position.Capture)
				p := c.Position()
				vsym.Assert(vsym.SameF64(c.Time(), r.nums[0]), "time of the row")
				vsym.Assert(vsym.And(vsym.SameF64(p.X(), r.nums[1]), vsym.And(vsym.SameF64(p.Y(), r.nums[2]), vsym.SameF64(p.Z(), r.nums[3]))), "coordinates of the row")
			}
			k++
		}
		vsym.Assert(k == cs[0].Length(), "exactly the rows of the pair")
		total += k
	}
	vsym.Assert(total == len(rows), "every row imported")
}

// order gives the k-th of 12 column orders; thorough ones follow.
func order(k int) []string {
	out := make([]string, 6)
	if k < 12 {
		for i := range out {
			j := (i + k) % 6
			if k >= 6 {
				j = 5 - j
			}
			out[i] = columns[j]
		}
		return out
	}
	left := append([]string(nil), columns[:]...)
	k = (k*487 + 31) % 720
	for i := range out {
		j := k % len(left)
		k /= len(left)
		out[i] = left[j]
		left = append(left[:j:j], left[j+1:]...)
	}
	return out
}

func cell(col string, id, name string, texts [4]string) string {
	switch col {
	case "id":
		return id
	case "name":
		return name
	case "time":
		return texts[0]
	case "x":
		return texts[1]
	case "y":
		return texts[2]
	case "z":
		return texts[3]
	}
	return "7"
}

// Tables of 3 rows (thorough: 4), 12 column orders (thorough: 72), with no, one or two extra columns; ids and names of one letter out of three, numbers of one or two digits, all symbolic.
//v: reach=imported cases=12 tcases=72
func C22_group() {
	k := vsym.Case(12)
	cols := order(k)
	switch k % 3 {
	case 1:
		cols = append([]string{"other"}, cols...)
	case 2:
		cols = append(append(append([]string{}, cols[:3]...), "xy", "ID"), cols[3:]...)
	}
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	var rows []csvRow
	var lines []string
	head := strings.Join(cols, ",")
	if k%2 == 1 {
		head = strings.Join(cols, " , ") + " "
	}
	lines = append(lines, head)
	for i := 0; i < n; i++ {
		r := csvRow{id: letter("id", 3), name: letter("name", 3)}
		var texts [4]string
		for j := range texts {
			texts[j], r.nums[j] = digits("num", 1+(i+j)%2)
			if (i+j+k)%4 == 0 {
				texts[j] = " " + texts[j] + " "
			}
		}
		rows = append(rows, r)
		var cells []string
		for _, c := range cols {
			cells = append(cells, cell(c, r.id, r.name, texts))
		}
		lines = append(lines, strings.Join(cells, ","))
	}
	data := strings.Join(lines, "\n")
	if k%2 == 0 {
		data += "\n"
	}
	checkRows(data, rows)
	vsym.Reach("imported")
}

// Quoted texts of two arbitrary bytes below 128 other than carriage returns.
//v: reach=imported
func C22_quoted() {
	text := func(name string) (raw, quoted string) {
		b := vsym.Bytes(name, 2)
		quoted = "\""
		for _, c := range b {
			vsym.Assume(c < 128)
			vsym.Assume(c != '\r')
			if c == '"' {
				quoted += "\"\""
			} else {
				quoted += string([]byte{c})
			}
		}
		return string(b), quoted + "\""
	}
	id, qid := text("id")
	name, qname := text("name")
	data := "z,id,x,name,y,time\n3," + qid + ",1," + qname + ",2,4\n6,b,5,c,5,5\n"
	checkRows(data, []csvRow{{id, name, [4]float64{4, 1, 2, 3}}, {"b", "c", [4]float64{5, 5, 5, 6}}})
	vsym.Reach("imported")
}

// Texts without quotes, of two arbitrary bytes below 128 other than commas, quotes and line ends, in the first and last columns.
//v: reach=imported
func C22_plain() {
	text := func(name string) string {
		b := vsym.Bytes(name, 2)
		for _, c := range b {
			vsym.Assume(c < 128)
			vsym.Assume(c != ',')
			vsym.Assume(c != '"')
			vsym.Assume(c != '\n')
			vsym.Assume(c != '\r')
		}
		return string(b)
	}
	id, name := text("id"), text("name")
	data := "id,x,y,z,time,name\n" + id + ",1,2,3,4," + name + "\nb,5,5,6,5,c\n" + id + ",7,8,9,5," + name + "\n"
	checkRows(data, []csvRow{{id, name, [4]float64{4, 1, 2, 3}}, {"b", "c", [4]float64{5, 5, 5, 6}}, {id, name, [4]float64{5, 7, 8, 9}}})
	vsym.Reach("imported")
}

// Numbers with signs, fractions and exponents: 16 texts in any of the four numeric columns.
//v: reach=imported
func C22_numbers() {
	texts := [16]string{"-1.5", "+2", "1e3", "2.5E-4", "0.1", "-0", "1e-320", "123456789.125", "NaN", "-Inf", "0x1p-2", "1_0", ".5", "5.", "1e400", "9007199254740993"}
	t := texts[vsym.Choose("text", 16)]
	at := vsym.Choose("column", 4)
	cells := [4]string{"1", "2", "3", "4"}
	cells[at] = t
	r := csvRow{id: "i", name: "n", nums: [4]float64{1, 2, 3, 4}}
	data := "time,x,y,z,id,name\n" + strings.Join(cells[:], ",") + ",i,n\n"
	v, err := strconv.ParseFloat(t, 64)
	if err != nil {
		_, err := RecordingFromCSV(strings.NewReader(data))
		vsym.Assert(err != nil, "unparsable number rejected")
	} else {
		r.nums[at] = v
		checkRows(data, []csvRow{r})
	}
	vsym.Reach("imported")
}

// A number of one arbitrary byte and one digit (thorough: two arbitrary bytes) other than comma, quote and line ends, in any of the four numeric columns of the first or second row.
//v: reach=rejected,imported cases=8
func C22_unparsable() {
	k := vsym.Case(8)
	b := vsym.Bytes("text", 2)
	if !vsym.Thorough() {
		b[vsym.Choose("digit", 2)] = '7'
	}
	for _, c := range b {
		vsym.Assume(c < 128)
		vsym.Assume(c != ',')
		vsym.Assume(c != '"')
		vsym.Assume(c != '\n')
		vsym.Assume(c != '\r')
	}
	t := string(b)
	rows := [2][4]string{{"1", "2", "3", "4"}, {"5", "6", "7", "8"}}
	rows[k/4][k%4] = t
	data := "time,x,y,z,id,name\n" + strings.Join(rows[0][:], ",") + ",i,n\n" + strings.Join(rows[1][:], ",") + ",i,n\n"
	v, err := strconv.ParseFloat(strings.TrimSpace(t), 64)
	if err != nil {
		_, err := RecordingFromCSV(strings.NewReader(data))
		vsym.Assert(err != nil, "unparsable number rejected")
		vsym.Reach("rejected")
		return
	}
	want := []csvRow{{"i", "n", [4]float64{1, 2, 3, 4}}, {"i", "n", [4]float64{5, 6, 7, 8}}}
	want[k/4].nums[k%4] = v
	checkRows(data, want)
	vsym.Reach("imported")
}

// Every table lacking one to six of the required columns, with 0 to 2 rows and 0 or 1 extra columns; short and long rows; empty input.
//v: reach=rejected
func C22_missing() {
	mask := 1 + vsym.Choose("missing", 63)
	extra := vsym.Choose("extra", 2)
	n := vsym.Choose("rows", 3)
	var cols, cells []string
	for i, c := range columns {
		if mask&(1<<uint(i)) == 0 {
			cols = append(cols, c)
			cells = append(cells, "1")
		}
	}
	if extra == 1 {
		cols = append(cols, "time2")
		cells = append(cells, "1")
	}
	data := strings.Join(cols, ",") + "\n"
	for i := 0; i < n; i++ {
		data += strings.Join(cells, ",") + "\n"
	}
	_, err := RecordingFromCSV(strings.NewReader(data))
	vsym.Assert(err != nil, "missing column rejected")
	vsym.Reach("rejected")
}

// Cells whose quotes do not match, with one arbitrary letter.
//v: reach=rejected
func C22_quotes() {
	a := letter("a", 26)
	rows := [6]string{"1,2,3,4,x\"" + a + ",b", "1,2,3,4,\"" + a + "\"x,b", "1,2,3,4," + a + ",\"b", "1,2,3,4," + a + ",b\"", "1,2,3,4,\"" + a + "\" ,b", "1,2,3,4," + a + ",\"b\"\"\n5,6,7,8,c,d"}
	_, err := RecordingFromCSV(strings.NewReader("x,y,z,time,id,name\n" + rows[vsym.Choose("row", 6)] + "\n"))
	vsym.Assert(err != nil, "broken quoting rejected")
	vsym.Reach("rejected")
}

// Tables with one row of a wrong number of cells, or empty.
//v: reach=rejected
func C22_ragged() {
	data := ""
	if n := vsym.Choose("cells", 9); n != 6 {
		data = "id,name,time,x,y,z\na,b,1,2,3,4\n" + strings.Repeat("1,", n) + "1\na,b,5,6,7,8\n"
		if n == 5 {
			data = ""
		}
	} else {
		data = "id,name,time,x,y,z\na,\"b,1,2,3,4\n"
	}
	_, err := RecordingFromCSV(strings.NewReader(data))
	vsym.Assert(err != nil, "malformed table rejected")
	vsym.Reach("rejected")
}

// Ids and names that are empty, blank, quoted empty, alike, or that look like numbers, column names or comments: three rows, two of them any of 8 texts around a symbolic letter; lines end in a line feed or in a carriage return and a line feed, with empty lines between.
//v: reach=imported
func C22_odd() {
	l := letter("letter", 3)
	texts := [8]string{"", " ", l, "A", "0", "name", "#" + l, " " + l + " "}
	pick := func(name string) string { return texts[vsym.Choose(name, 8)] }
	end := "\n"
	if vsym.Choose("end", 2) == 1 {
		end = "\r\n"
	}
	rows := []csvRow{
		{id: pick("id"), name: pick("name"), nums: [4]float64{1, 2, 3, 4}},
		{id: "a", name: "", nums: [4]float64{2, 5, 6, 7}},
		{id: pick("id"), name: "a", nums: [4]float64{3, 8, 9, 0}},
	}
	data := "time,id,name,x,y,z" + end
	for i, r := range rows {
		id := r.id
		if id == "" && i == 2 {
			id = "\"\""
		}
		data += strconv.Itoa(i+1) + "," + id + "," + r.name
		for _, v := range r.nums[1:] {
			data += "," + strconv.Itoa(int(v))
		}
		data += end + end
	}
	checkRows(data, rows)
	vsym.Reach("imported")
}
