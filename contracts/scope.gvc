// Scopes.

func Scope.Contains(s, str) (ok) {
  ensures [S01] "contains exactly the equal elements": ok <==> scontains(strs(s), str);
  ensures [S01] "membership means some element equals the string": ok <==> (exists i: int :: 0 <= i && i < len(s) && s[i] == str);
  safe [S01];
  frame [S01];
}

func Scope.Includes(s, scope) (ok) {
  ensures [S01] "includes exactly the subsets": ok <==> sincludes(strs(s), strs(scope));
  ensures [S01] "inclusion means every element is contained": ok <==> (forall i: int :: 0 <= i && i < len(scope) ==> scontains(strs(s), scope[i]));
  safe [S01];
  frame [S01];
}

func Scope.Empty(s) (ok) {
  ensures [S01] "empty exactly without elements": ok <==> len(s) == 0;
  safe [S01];
  frame [S01];
}

func Scope.String(s) (str) {
  ensures [S02] "joined with single spaces": str == join(strs(s), " ");
  safe [S02];
  frame [S02];
}

// The non-empty trimmed pieces between spaces, in order (see fold pscan).
define parsescope(str) = pscan(split(str, " "));

func ParseScope(str) (res) {
  ensures [S02] "exactly the non-empty trimmed pieces": strs(res) == parsescope(str);
  ensures "new memory": fresh(res);
  ensures "nil when empty": len(res) == 0 ==> nilslice(res);
  safe [S02];
  frame [S02];
}

func Scope.MarshalJSON(s) (buf, err) {
  ensures [S02] "JSON string of the formatted form": err == nil && bytes(buf) == jencstr(join(strs(s), " "));
  safe [S02];
  frame [S02];
}
