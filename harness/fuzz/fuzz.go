// Package fuzz holds the target of the coverage-guided campaigns.
package fuzz
