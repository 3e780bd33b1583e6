package main

import "strings"

// Names that begin alike: every choice of four of them, in every order, for
// the names of fields, of variables and parameters, and of functions, types,
// globals and modules.

var alikeNames = []string{"a", "ab", "abc", "b", "aa", "A", "a1", "a_"}

func genAlike(x *Enum, part, text, want string, files map[string]string) {
	var rec func(l []string)
	rec = func(l []string) {
		if len(l) == 4 {
			var p []string
			for i, n := range l {
				p = append(p, "«"+string(rune('1'+i))+"»", n)
			}
			r := strings.NewReplacer(p...)
			f := map[string]string{}
			for n, t := range files {
				f[n] = r.Replace(t)
			}
			src := r.Replace(text)
			w := r.Replace(want)
			x.Case("alike:"+part+":"+strings.Join(l, ","), func() Case { return Case{Kind: KRun, Src: src, Want: w, Files: f} })
			return
		}
	next:
		for _, n := range alikeNames {
			for _, m := range l {
				if n == m {
					continue next
				}
			}
			rec(append(append([]string{}, l...), n))
		}
	}
	rec(nil)
}

func genAlikeFields(x *Enum) {
	genAlike(x, "fields", `struct S { «1» i32
 «2» i64
 «3» i8
 «4» i32 }
union U { «1» i32
 «2» i8
 «3» i64
 «4» u8 }
struct F { «1» func() i32
 «2» i32 }
func seven() i32 { return 7; }
func «2»(f F) i32 { return 9; }
func «3»(f F) i32 { return f.«2» + 1; }
func show(p *S) { @print(p.«1», p.«2», p.«3», p.«4», ";"); }
func main() {
  s := @S{«4»: 4, «1»: 1, «3»: 3 as i8, «2»: 2 as i64};
  show(&s);
  s.«3» = 30 as i8;
  (&s).«1» = 10;
  s.«4», s.«2» = 40, 20 as i64;
  t := s;
  show(&t);
  u : U = 5;
  u.«3» = 1000 as i64;
  @print(u.«1», u.«2», u.«3», u.«4», ";");
  u.«2» = -1 as i8;
  @print(u.«2», u.«4», ";");
  f := @F{«1»: seven, «2»: 5};
  @print(f.«1»(), f.«2», f.«3»(), ";");
  ar := [2]S{s, @S{«1»: 5, «2»: 6 as i64, «3»: 7 as i8, «4»: 8}};
  @print(ar[1].«1», ar[1].«2», ar[1].«3», ar[1].«4», ar[0].«3»);
}
`, "1 2 3 4 ;10 20 30 40 ;1000 -24 1000 232 ;-1 255 ;7 5 6 ;5 6 7 8 30", nil)
}

func genAlikeLocals(x *Enum) {
	genAlike(x, "locals", `func p(«1» i32, «2» i32, «3» i32, «4» i32) i32 {
  «2» = «2» * 10;
  { «3» := «3» + 1; «2» = «2» + «3»; }
  l := func(«1» i32) i32 { return «1» * 1000 + «4»; };
  return «1» + «2» * 2 + «3» * 3 + l(«4»);
}
func main() {
  «1» := 1;
  «2», «3» := 2, 3;
  «4» : i32 = 4;
  for «1» := 5; «1» < 6; «1» = «1» + 1 { «3» = «1»; }
  «2», «4» = «4», «2»;
  if «1» == 1 { «4» := 9; «2» = «2» + «4»; }
  @print(«1», «2», «3», «4», p(«1», «2», «3», «4»));
}
`, "1 13 5 2 2290", nil)
}

func genAlikeTops(x *Enum) {
	genAlike(x, "tops", `import m«1», "./m1.cd";
import m«2», "./m2.cd";
struct T«1» { v i32 }
struct T«2» { v i64 }
union T«3» { v i32
 w i8 }
type T«4» = *T«2»;
g«1» := 1;
g«2» := 2;
const g«3» := 3;
func «4»() i32 { return 4 + g«3»; }
func «1»() i32 { return «2»() + g«1»; }
func «3»(n T«1») i32 { return n.v + g«2»; }
func «2»() i32 { g«2» = 20; return 100; }
func main() {
  t := @T«1»{v: 5};
  o := @T«2»{v: 6 as i64};
  q : T«4» = &o;
  w : T«3» = 7;
  @print(«1»(), «2»(), «3»(t), t.«3»(), «4»(), o.v, q.v, w.v, @sizeof(T«1»), @sizeof(T«2»), m«1».f(), m«2».f(), m«1».g, m«2».g);
}
`, "101 100 25 25 7 6 6 7 4 8 31 42 30 40", map[string]string{
		"m1.cd": "g := 30;\nfunc f() i32 { return g + 1; }\n",
		"m2.cd": "g := 40;\nfunc f() i32 { return g + 2; }\n",
	})
}
