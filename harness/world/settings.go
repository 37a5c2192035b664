package world

import (
	"path/filepath"

	"verifharness/pbt"
)

func strs(ps []pbt.Str) []string {
	var out []string
	for _, p := range ps {
		out = append(out, string(p))
	}
	return out
}

// Settings gives the keys and values of a configuration.
func (w *World) Settings(f *Files) map[string]any {
	m := map[string]any{"systemDict": filepath.Base(f.Sys), "characterDefinitionFile": filepath.Base(f.CharDef), "utf16String": w.Utf16}
	if len(f.Users) > 0 {
		var u []string
		for _, x := range f.Users {
			u = append(u, filepath.Base(x))
		}
		m["userDict"] = u
	}
	type obj = map[string]any
	in, oov, path := []any{}, []any{}, []any{}
	for _, k := range w.Input {
		if k == "default" {
			in = append(in, obj{"class": "com.worksap.nlp.sudachi.DefaultInputTextPlugin", "rewriteDef": f.Rewrite})
		} else {
			in = append(in, obj{"name": "ProlongedSoundMarkInputTextPlugin", "prolongedSoundMarks": strs(w.Prolonged.Marks), "replacementSymbol": string(w.Prolonged.Replacement)})
		}
	}
	for _, k := range w.Oov {
		if k == "mecab" {
			oov = append(oov, obj{"class": "MeCabOovProviderPlugin", "charDef": f.CharDef, "unkDef": f.UnkDef})
		} else {
			oov = append(oov, obj{"class": "com.worksap.nlp.sudachi.SimpleOovProviderPlugin", "oovPOS": w.POS[w.Simple.Pos].List(), "leftId": w.Simple.Left, "rightId": w.Simple.Right, "cost": w.Simple.Cost})
		}
	}
	for _, p := range w.Path {
		if p.Kind == "numeric" {
			path = append(path, obj{"name": "com.worksap.nlp.sudachi.JoinNumericPlugin", "enableNormalize": p.Normalize})
		} else {
			path = append(path, obj{"class": "JoinKatakanaOovPlugin", "oovPOS": w.POS[p.Pos].List(), "minLength": p.MinLength})
		}
	}
	m["inputTextPlugin"], m["oovProviderPlugin"], m["pathRewritePlugin"] = in, oov, path
	m["editConnectionCostPlugin"] = []any{obj{"class": "InhibitConnectionPlugin", "inhibitedPair": append([][2]int{}, w.Inhibit...)}}
	return m
}
