// Package zzverif decides the properties in /verif/properties.jsonl by generated-input search.
package zzverif
