// C05: the list and the progress produced by branch and bound are truthful.
package main

import (
	"fmt"
	"math"

	"pgregory.net/rapid"

	"verif/kit"
)

func gen(t *rapid.T) kit.SearchCase {
	c := kit.GenSearch(t, 8)
	if rapid.IntRange(0, 2).Draw(t, "smallqueue") == 0 {
		c.MaxQueue = rapid.IntRange(1, 12).Draw(t, "maxqueue")
	}
	return c
}

func run(c kit.SearchCase, o *kit.Obs) error {
	fits, shaky := kit.Models(&c.Prob)
	if shaky {
		return kit.ErrSkip
	}
	h, sp, err := c.Run()
	if err != nil {
		return err
	}
	capacity := c.Cap - 1
	if capacity < 1 {
		capacity = 1
	}
	nodes := kit.Nodes(h)
	if len(nodes) != h.Len() || len(nodes) > capacity {
		return fmt.Errorf("list holds %d models (Len %d), capacity is %d", len(nodes), h.Len(), capacity)
	}
	seen := map[int]bool{}
	for i, n := range nodes {
		if err := c.CheckNode(n, fits); err != nil {
			return fmt.Errorf("entry %d: %w", i, err)
		}
		if i > 0 && n.Score > nodes[i-1].Score {
			return fmt.Errorf("entry %d has score %v after %v", i, n.Score, nodes[i-1].Score)
		}
		m := kit.Mask(n.Model)
		if seen[m] {
			return fmt.Errorf("model %s is listed twice", kit.ModelStr(n.Model))
		}
		seen[m] = true
	}
	bs, ne, np := sp.Get()
	if bs != h.BestScore() {
		return fmt.Errorf("final progress reports best score %v, the list %v", bs, h.BestScore())
	}
	if ne < len(nodes) || ne > len(fits)-1 {
		return fmt.Errorf("final progress reports %d explored models: the list has %d, %d models exist", ne, len(nodes), len(fits)-1)
	}
	if capacity > len(fits) && ne != len(nodes) {
		return fmt.Errorf("final progress reports %d explored models, but %d were listed although the list was not full", ne, len(nodes))
	}
	// the counter starts with one model
	if total := math.Pow(2, float64(c.P)); !(np >= 0 && math.Pow(2, np)-1 <= total*(1+1e-9)) {
		return fmt.Errorf("final progress reports %v pruned models, %v exist", math.Pow(2, np)-1, total)
	}
	if np > 0 {
		o.Label("pruned")
	}
	if len(nodes) > 1 {
		o.NonTrivial()
	}
	if c.MaxQueue > 0 {
		o.Label("small queue")
	}
	if capacity > len(fits) {
		o.Label("list never full")
	}
	if len(nodes) == capacity {
		o.Label("list full")
	}
	// the caller's parameters and data can be used again, with the same result
	if c.Reuse && c.MaxQueue == 0 {
		h2, _, err := c.Run()
		if err != nil {
			return err
		}
		if !kit.Close(h.BestScore(), h2.BestScore(), kit.ScoreTol) {
			return fmt.Errorf("second run: best score %v, first %v", h2.BestScore(), h.BestScore())
		}
	}
	return nil
}

func main() {
	kit.Main(&kit.Check{ID: "C05",
		Rule:        "As C04, plus queue limits of 1-12 entries. Every listed model's score and coefficients are recomputed by an independent least-squares routine; order, distinctness, capacity and the final progress are compared. Non-trivial: at least two models are listed.",
		Assumptions: []string{"problems where some model's rank or residual is numerically ambiguous are outside the domain"},
		Subs: []kit.Sub{kit.NewSub("truthful-again", 600, 10000, gen, kit.Again(run)), kit.NewSub("truthful", 8000, 120000, gen, run),
			kit.NewSub("truthful-wide", 100, 2500, func(t *rapid.T) kit.SearchCase {
				c := kit.GenSearchWide(t, 14)
				if rapid.IntRange(0, 2).Draw(t, "smallqueue") == 0 {
					c.MaxQueue = rapid.IntRange(1, 200).Draw(t, "maxqueue")
				}
				return c
			}, run)}})
}
