package verifharness

import "testing"

// Written by tools/gen_fuzz.py.
var fuzzTests = map[string][]func(*testing.T){
	"C01": {TestC01_Tree, TestC01_Scopes, TestC01_BuildFragment, TestC01_Wide},
	"C02": {TestC02_Correspondence, TestC02_JoinRagged},
	"C03": {TestC03_Broken, TestC03_Wild, TestC03_InQueryBuilder, TestC03_Later},
	"C04": {TestC04_Join, TestC04_Compatibility, TestC04_Calls, TestC04_Nested, TestC04_CalledOnce},
	"C05": {TestC05_Pieces, TestC05_Valid, TestC05_AnyString, TestC05_History},
	"C06": {TestC06_Literal, TestC06_Tree, TestC06_AroundBinds, TestC06_QueryBuilder},
	"C07": {TestC07_Registration, TestC07_Names, TestC07_Call},
	"C08": {TestC08_Scopes},
	"C09": {TestC09_Fragments, TestC09_Builders},
	"C10": {TestC10_Repeat, TestC10_Concurrent},
	"C11": {TestC11_Commits, TestC11_Build},
	"C12": {TestC12_Render, TestC12_Presence, TestC12_Columns, TestC12_Conditions, TestC12_Texts, TestC12_Distinct},
	"C13": {TestC13_Markers},
	"C14": {TestC14_Elimination, TestC14_Graphs},
	"C15": {TestC15_CTEs, TestC15_Graphs},
	"C16": {TestC16_From, TestC16_History},
	"C17": {TestC17_Misuse},
	"C18": {TestC18_Interpolate, TestC18_NotAQuery, TestC18_Total, TestC18_Engine},
	"C19": {TestC19_Scan, TestC19_Builders},
	"C20": {TestC20_Count, TestC20_Builders},
	"C21": {TestC21_Flatten, TestC21_EveryType, TestC21_WhereIn, TestC21_Ttoa},
	"C22": {TestC22_Valid, TestC22_Pieces, TestC22_Lines},
	"C23": {TestC23_Orders},
	"C24": {TestC24_History, TestC24_NestedInvalid},
	"C25": {TestC25_Constructors},
	"C26": {TestC26_Meaning},
	"C27": {TestC27_SameRows},
	"C28": {TestC28_Debug, TestC28_NotShown},
	"C29": {TestC29_Cause},
	"C30": {TestC30_Fragments, TestC30_Builders, TestC30_Lists},
	"C31": {TestC31_Builders, TestC31_Fragments, TestC31_Groupings},
}
