//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/sjansen/pgutil/internal/zzverif/pgsrv"
)

// codes are the errors a server knows, by class.
var codes = func() (out []string) {
	for _, class := range strings.Split(`00:000
01:000 003 004 006 007 008 00C P01
02:000 001
03:000
08:000 001 003 004 006 007 P01
09:000
0A:000
0B:000
0F:000 001
0L:000 P01
0P:000
0Z:000 002
20:000
21:000
22:000 001 002 003 004 005 007 008 009 00B 00C 00D 00E 00F 00G 010 011 012 013 014 015 016 018 019 01B 01E 01F 01G 021 022 023 024 025 026 027 02E 02F 02G 02H 030 031 032 033 034 035 036 037 038 039 03A 03B 03C 03D 03E 03F 03G P01 P02 P03 P04 P05 P06
23:000 001 502 503 505 514 P01
24:000
25:000 001 002 003 004 005 006 007 008 P01 P02 P03 P04
26:000
27:000
28:000 P01
2B:000 P01
2D:000
2F:000 002 003 004 005
34:000
38:000 001 002 003 004
39:000 001 004 P01 P02 P03
3B:000 001
3D:000
3F:000
40:000 001 002 003 P01
42:000 501 601 602 611 622 701 702 703 704 710 712 723 725 803 804 809 830 846 883 939 P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22
44:000
53:000 100 200 300 400
54:000 001 011 023
55:000 006 P02 P03 P04
57:000 014 P01 P02 P03 P04 P05
58:000 030 P01 P02
72:000
F0:000 001
HV:000 001 002 004 005 00B 00C 00N 00P 00R
P0:000 001 002 003 004
XX:000 001 002
ZZ:ZZZ`, "\n") {
		for _, c := range strings.Fields(class[3:]) {
			out = append(out, class[:2]+c)
		}
	}
	return
}()

// more are further answers: every error, and every way to say that all is well.
var more = func() (out []answer) {
	for _, sev := range []string{"ERROR", "FATAL", "PANIC", "FEHLER"} {
		for i, c := range codes {
			if sev != "ERROR" && i%5 > 0 {
				continue
			}
			m := fail(sev, c)
			a := answer{"error " + sev + " " + c, false, pgsrv.Reply{Msgs: cat(m)}}
			if sev == "FATAL" || sev == "PANIC" {
				a.reply.End = "close"
			}
			out = append(out, a)
		}
	}
	for _, text := range []string{"", "relation \"x\" already exists, skipping", "no rows in result set", "current transaction is aborted", "EOF", "%s%d", strings.Repeat("long ", 30000), "a\nb", "\x80"} {
		out = append(out, answer{fmt.Sprintf("an error that says %.30q", text), false, pgsrv.Reply{Msgs: cat(pgsrv.ErrorReport("ERROR", "42P07", text))}})
		n := pgsrv.ErrorReport("WARNING", "25P01", text)
		n.T = 'N'
		out = append(out, answer{fmt.Sprintf("a warning that says %.30q", text), true, pgsrv.Reply{Msgs: cat(n, complete("COMMIT"))}})
	}
	for _, c := range codes {
		n := pgsrv.ErrorReport("NOTICE", c, "just so")
		n.T = 'N'
		out = append(out, answer{"a notice with the code " + c, true, pgsrv.Reply{Msgs: cat(n, complete("DO"), n)}})
	}
	for _, tag := range strings.Split("INSERT 0 0|INSERT 16385 1|INSERT 0 4294967296|UPDATE 0|DELETE 0|SELECT 0|SELECT|MOVE 1|FETCH 0|COPY 7|CREATE TABLE AS|CREATE TABLE|CREATE INDEX|DROP TABLE|ALTER TABLE|COMMENT|GRANT|REVOKE|TRUNCATE TABLE|VACUUM|ANALYZE|REINDEX|LISTEN|NOTIFY|SET|SHOW|DO|BEGIN|COMMIT|ROLLBACK|START TRANSACTION|SAVEPOINT|RELEASE|LOCK TABLE|PREPARE|EXECUTE|DEALLOCATE|DEALLOCATE ALL|DISCARD ALL|CHECKPOINT|REFRESH MATERIALIZED VIEW|CREATE FUNCTION|EXPLAIN|ERROR|FAILED 1||x", "|") {
		out = append(out, answer{fmt.Sprintf("done with %q", tag), true, pgsrv.Reply{Msgs: cat(complete(tag))}})
	}
	return
}()

func answerOf(i int) answer {
	if i < len(answers) {
		return answers[i]
	}
	return more[i-len(answers)]
}
