//go:build go1.22

package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/sjansen/pgutil/internal/ddl"
)

// A lang is one kind of definition: a reference description of its form
// (white space W, names ID; over single bytes), the meaning of its parts,
// and the parser under test.
type lang struct {
	name  string
	prop  string
	src   string
	re    *regexp.Regexp
	dfa   *dfa
	parse func(string) (any, error)
	want  func(g map[string]string) any
	same  func(a, b any) bool
	seeds []string
	toks  []string
}

var expand = strings.NewReplacer(
	"W", `[\t-\r ]`,
	"ID", `[a-zA-Z][_a-zA-Z0-9]*`,
)

// rx reads a pattern written with W, ID and insignificant blanks.
func rx(s string) string {
	s = strings.Map(func(r rune) rune {
		if r == ' ' || r == '\n' || r == '\t' {
			return -1
		}
		return r
	}, s)
	// words in braces are literal keywords
	out := regexp.MustCompile(`\{([A-Z]+)\}|W|ID|\(\?P<[a-z]+>`).ReplaceAllStringFunc(s, func(m string) string {
		if m[0] == '{' {
			return m[1 : len(m)-1]
		}
		if m[0] == '(' {
			return m
		}
		return expand.Replace(m)
	})
	return `(?is)\A` + out + `\z`
}

const deferral = `(?: W+{NOT}W+{DEFERRABLE}%s | (?:W+(?P<deferrable>{DEFERRABLE}))?(?:W+{INITIALLY}W+(?P<initially>{IMMEDIATE}|{DEFERRED}))? )`

var event = `(?:{INSERT}|{DELETE}|{TRUNCATE}|{UPDATE}(?:W+{OF}W+ID(?:W*,W*ID)*)?)`

var (
	eventRx = regexp.MustCompile(strings.TrimSuffix(rx(`(?:W+{OR}W+)?(?P<kind>{INSERT}|{DELETE}|{TRUNCATE}|{UPDATE})(?:W+{OF}W+(?P<cols>ID(?:W*,W*ID)*))?`), `\z`))
	keyRx   = regexp.MustCompile(strings.TrimSuffix(rx(`(?:W*,W*)?(?:(?P<expr>\([^)]+\)|ID\([^)]*\))|(?P<col>ID))(?:W+(?P<op>ID))?`), `\z`))
	comma   = regexp.MustCompile(`[\t-\r ]*,[\t-\r ]*`)
	blanks  = regexp.MustCompile(`[\t-\r ]+`)
)

func up(s string) string { return strings.ToUpper(blanks.ReplaceAllString(s, " ")) }

func list(s string) []string { return comma.Split(strings.Trim(s, "\t\n\v\f\r "), -1) }

// squeeze collapses white space outside quotes.
func squeeze(s string) string {
	var out strings.Builder
	q := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case q != 0:
			if c == q {
				q = 0
			}
		case c == '\'' || c == '"':
			q = c
		case c == ' ' || c >= 9 && c <= 13:
			for i+1 < len(s) && (s[i+1] == ' ' || s[i+1] >= 9 && s[i+1] <= 13) {
				i++
			}
			c = ' '
		}
		out.WriteByte(c)
	}
	if q != 0 { // not a literal: white space does not matter
		return "unterminated " + blanks.ReplaceAllString(s, "")
	}
	return strings.TrimSpace(out.String())
}

func langs() []*lang {
	ls := []*lang{{
		name: "check", prop: "C19",
		src:   `W*{CHECK}W*\((?P<expr>.*)\)` + fmt.Sprintf(deferral, "") + `W*`,
		parse: func(s string) (any, error) { v, err := ddl.ParseCheck(s); return v, err },
		want: func(g map[string]string) any {
			return &ddl.Check{
				Expression: strings.TrimSpace(g["expr"]), Deferrable: g["deferrable"] != "",
				InitiallyDeferred: up(g["initially"]) == "DEFERRED",
			}
		},
		same: func(a, b any) bool {
			x, y := *a.(*ddl.Check), *b.(*ddl.Check)
			x.Expression, y.Expression = strings.TrimSpace(x.Expression), strings.TrimSpace(y.Expression)
			return x == y
		},
		seeds: []string{"CHECK ( (a > 0) ) DEFERRABLE INITIALLY DEFERRED", "CHECK (a) NOT DEFERRABLE", "check(b) INITIALLY IMMEDIATE"},
		toks:  []string{"CHECK", "(", ")", "NOT", "DEFERRABLE", "INITIALLY", "IMMEDIATE", "DEFERRED", "a", ","},
	}, {
		name: "foreign key", prop: "C19",
		src: `W*{FOREIGN}W+{KEY}W+\(W*(?P<cols>ID(?:W*,W*ID)*)W*\)W+{REFERENCES}W+(?P<table>ID)\(W*(?P<refs>ID(?:W*,W*ID)*)W*\)
			(?:W+{MATCH}W+(?P<match>{FULL}|{PARTIAL}|{SIMPLE}))?
			(?:W+{ON}W+{DELETE}W+(?P<del>{NO}W+{ACTION}|{RESTRICT}|{CASCADE}|{SET}W+{NULL}|{SET}W+{DEFAULT}))?
			(?:W+{ON}W+{UPDATE}W+(?P<upd>{NO}W+{ACTION}|{RESTRICT}|{CASCADE}|{SET}W+{NULL}|{SET}W+{DEFAULT}))?
			` + fmt.Sprintf(deferral, "") + `W*`,
		parse: func(s string) (any, error) { v, err := ddl.ParseForeignKey(s); return v, err },
		want: func(g map[string]string) any {
			return &ddl.ForeignKey{
				Columns: list(g["cols"]), Table: g["table"], Referenced: list(g["refs"]),
				Match: up(g["match"]), OnDelete: up(g["del"]), OnUpdate: up(g["upd"]),
				Deferrable: g["deferrable"] != "", InitiallyDeferred: up(g["initially"]) == "DEFERRED",
			}
		},
		same: reflect.DeepEqual,
		seeds: []string{
			"FOREIGN KEY (a, b) REFERENCES t(c, d) MATCH FULL ON DELETE SET NULL ON UPDATE NO ACTION DEFERRABLE INITIALLY DEFERRED",
			"FOREIGN KEY (a) REFERENCES t(c) ON UPDATE SET DEFAULT NOT DEFERRABLE",
			"FOREIGN KEY ( a ) REFERENCES t( c ) MATCH PARTIAL ON DELETE CASCADE DEFERRABLE",
			"FOREIGN KEY (a) REFERENCES t(c) MATCH SIMPLE ON DELETE RESTRICT INITIALLY IMMEDIATE",
		},
		toks: []string{"FOREIGN", "KEY", "(", ")", ",", "a", "REFERENCES", "MATCH", "FULL", "ON", "DELETE", "UPDATE", "SET", "NULL", "NO", "ACTION", "CASCADE", "NOT", "DEFERRABLE", "INITIALLY", "DEFERRED"},
	}, {
		name: "index", prop: "C20",
		src: `W*{CREATE}W+(?P<unique>{UNIQUE}W+)?{INDEX}W+(?P<name>ID)W+{ON}W+(?P<table>ID)(?:W+{USING}W+(?P<using>ID))?W+\(W*
			(?P<keys>(?:\([^)]+\)|ID\([^)]*\)|ID)(?:W+ID)?(?:W*,W*ID(?:W+ID)?)*)W*\)
			(?:W+{WHERE}W+(?P<where>[^\t-\r\x20].*)|W*)`,
		parse: func(s string) (any, error) { v, err := ddl.ParseIndex(s); return v, err },
		want: func(g map[string]string) any {
			x := &ddl.Index{Name: g["name"], Table: g["table"], Using: g["using"], Unique: g["unique"] != "", Where: g["where"]}
			for k := g["keys"]; k != ""; {
				m := groups(keyRx, k)
				if m == nil {
					break
				}
				key := &ddl.IndexKey{Column: m["col"], Expression: bytesOf(m["expr"])}
				switch up(m["op"]) {
				case "DESC":
					key.Descending = true
				case "ASC":
				default:
					key.OpClass = m["op"]
				}
				x.Keys = append(x.Keys, key)
				k = k[len(m["0"]):]
			}
			return x
		},
		same: func(a, b any) bool {
			x, y := *a.(*ddl.Index), *b.(*ddl.Index)
			x.Where, y.Where = squeeze(x.Where), squeeze(y.Where)
			return reflect.DeepEqual(x, y)
		},
		seeds: []string{
			"CREATE UNIQUE INDEX i ON t USING btree (a x_ops, b y_ops) WHERE (c  = 'p  q')",
			"CREATE INDEX i ON t ((a % 2) DESC, b ASC)",
			"CREATE INDEX i ON t USING gin ( lower(a) z_ops , b )",
			"CREATE INDEX i ON t (a DESC) WHERE b",
		},
		toks: []string{"CREATE", "UNIQUE", "INDEX", "i", "ON", "USING", "(", ")", ",", "f(", "DESC", "WHERE"},
	}, {
		name: "trigger", prop: "C21",
		src: `W*{CREATE}W+(?P<constraint>{CONSTRAINT}W+)?{TRIGGER}W+(?P<name>ID)W+(?P<when>{BEFORE}|{AFTER}|{INSTEAD}W+{OF})W+
			(?P<events>` + event + `(?:W+{OR}W+` + event + `)*)W+{ON}W+(?P<table>ID)
			` + fmt.Sprintf(deferral, `(?:W+{INITIALLY}W+{IMMEDIATE})?`) + `(?:W+{FOR}W+(?:{EACH}W+)?(?P<level>{ROW}|{STATEMENT}))?
			W+{EXECUTE}W+(?:{FUNCTION}|{PROCEDURE})W+(?P<function>ID)\(\)W*`,
		parse: func(s string) (any, error) { v, err := ddl.ParseTrigger(s); return v, err },
		want: func(g map[string]string) any {
			x := &ddl.Trigger{
				Name: g["name"], Table: g["table"], Function: g["function"], When: up(g["when"]),
				Constraint: g["constraint"] != "", Deferrable: g["deferrable"] != "",
				InitiallyDeferred: up(g["initially"]) == "DEFERRED", ForEachRow: up(g["level"]) == "ROW",
			}
			for e := g["events"]; e != ""; {
				m := groups(eventRx, e)
				if m == nil {
					break
				}
				switch up(m["kind"]) {
				case "INSERT":
					x.Insert = true
				case "DELETE":
					x.Delete = true
				case "TRUNCATE":
					x.Truncate = true
				case "UPDATE":
					x.Update = true
					if m["cols"] != "" {
						x.Columns = append(x.Columns, list(m["cols"])...)
					}
				}
				e = e[len(m["0"]):]
			}
			return x
		},
		same: reflect.DeepEqual,
		seeds: []string{
			"CREATE CONSTRAINT TRIGGER g AFTER INSERT OR UPDATE OF a, b OR DELETE ON t DEFERRABLE INITIALLY DEFERRED FOR EACH ROW EXECUTE FUNCTION f()",
			"CREATE TRIGGER g INSTEAD OF UPDATE ON t FOR ROW EXECUTE PROCEDURE f()",
			"CREATE TRIGGER g BEFORE TRUNCATE ON t NOT DEFERRABLE INITIALLY IMMEDIATE FOR EACH STATEMENT EXECUTE PROCEDURE f()",
			"CREATE TRIGGER g BEFORE DELETE ON t INITIALLY IMMEDIATE EXECUTE FUNCTION f()",
			"CREATE TRIGGER g AFTER UPDATE OF a ON t DEFERRABLE EXECUTE FUNCTION f()",
		},
		toks: []string{"CREATE", "CONSTRAINT", "TRIGGER", "g", "AFTER", "INSTEAD", "OF", "INSERT", "UPDATE", "OR", ",", "ON", "NOT", "DEFERRABLE", "INITIALLY", "IMMEDIATE", "FOR", "EACH", "ROW", "EXECUTE", "FUNCTION", "("},
	}}
	for _, l := range ls {
		p := rx(l.src)
		l.re = regexp.MustCompile(p)
		l.dfa = compile(p)
	}
	return ls
}

func groups(re *regexp.Regexp, s string) map[string]string {
	m := re.FindStringSubmatch(s)
	if m == nil {
		return nil
	}
	g := map[string]string{"0": m[0]}
	for i, n := range re.SubexpNames() {
		if n != "" && m[i] != "" {
			g[n] = m[i]
		}
	}
	return g
}

// latin shows each byte as one character, for the byte-wise reference.
func latin(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			r := make([]rune, len(s))
			for i := 0; i < len(s); i++ {
				r[i] = rune(s[i])
			}
			return string(r)
		}
	}
	return s
}

func bytesOf(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			var b []byte
			for _, r := range s {
				b = append(b, byte(r))
			}
			return string(b)
		}
	}
	return s
}

// expected is what reading s must give.
func (l *lang) expected(s string) any {
	g := groups(l.re, latin(s))
	if g == nil {
		return nil
	}
	for k, v := range g {
		if k != "keys" {
			g[k] = bytesOf(v)
		}
	}
	return l.want(g)
}

// message is the error to show when s cannot be continued after pos bytes.
func message(s string, pos int) string {
	if pos >= len(s) {
		return "error after end of data"
	}
	from := strings.LastIndexByte(s[:pos], '\n') + 1
	line := s[from:]
	if i := strings.IndexByte(s[pos:], '\n'); i >= 0 {
		line = s[from : pos+i]
	}
	return line + "\n" + strings.Repeat(" ", utf8.RuneCountInString(s[from:pos])) + "^"
}
