package main

import "nsverif/props"

var registry = map[string]func(){
	"C01_Ended":             props.C01_Ended,
	"C01_Foreign":           props.C01_Foreign,
	"C01_HistoryDirected":   props.C01_HistoryDirected,
	"C01_HistoryUndirected": props.C01_HistoryUndirected,
	"C01_Keys":              props.C01_Keys,
	"C01_Many":              props.C01_Many,
	"C01_Names":             props.C01_Names,
	"C01_Own":               props.C01_Own,
	"C01_StepDirected":      props.C01_StepDirected,
	"C01_StepUndirected":    props.C01_StepUndirected,
	"C01_Watched":           props.C01_Watched,
	"C02_AddDirected":       props.C02_AddDirected,
	"C02_AddSymbolic":       props.C02_AddSymbolic,
	"C02_AddUndirected":     props.C02_AddUndirected,
	"C02_Foreign":           props.C02_Foreign,
	"C02_Many":              props.C02_Many,
	"C02_Names":             props.C02_Names,
	"C02_Options":           props.C02_Options,
	"C02_SameNode":          props.C02_SameNode,
	"C02_TwiceDirected":     props.C02_TwiceDirected,
	"C02_TwiceUndirected":   props.C02_TwiceUndirected,
	"C02_Watched":           props.C02_Watched,
	"C03_Directed":          props.C03_Directed,
	"C03_Foreign":           props.C03_Foreign,
	"C03_Many":              props.C03_Many,
	"C03_Names":             props.C03_Names,
	"C03_Options":           props.C03_Options,
	"C03_Symbolic":          props.C03_Symbolic,
	"C03_Twice":             props.C03_Twice,
	"C03_Undirected":        props.C03_Undirected,
	"C03_Watched":           props.C03_Watched,
	"C04_Directed":          props.C04_Directed,
	"C04_Foreign":           props.C04_Foreign,
	"C04_GraphWeight":       props.C04_GraphWeight,
	"C04_Joined":            props.C04_Joined,
	"C04_Keys":              props.C04_Keys,
	"C04_Many":              props.C04_Many,
	"C04_Names":             props.C04_Names,
	"C04_Options":           props.C04_Options,
	"C04_Symbolic":          props.C04_Symbolic,
	"C04_TwiceDirected":     props.C04_TwiceDirected,
	"C04_TwiceUndirected":   props.C04_TwiceUndirected,
	"C04_Undirected":        props.C04_Undirected,
	"C04_Watched":           props.C04_Watched,
	"C05_Directed":          props.C05_Directed,
	"C05_Ended":             props.C05_Ended,
	"C05_Foreign":           props.C05_Foreign,
	"C05_Joined":            props.C05_Joined,
	"C05_Many":              props.C05_Many,
	"C05_MapOrder":          props.C05_MapOrder,
	"C05_Names":             props.C05_Names,
	"C05_Own":               props.C05_Own,
	"C05_RelinkDirected":    props.C05_RelinkDirected,
	"C05_RelinkUndirected":  props.C05_RelinkUndirected,
	"C05_SharedAttrs":       props.C05_SharedAttrs,
	"C05_Symbolic":          props.C05_Symbolic,
	"C05_Undirected":        props.C05_Undirected,
	"C05_Watched":           props.C05_Watched,
	"C06_Directed":          props.C06_Directed,
	"C06_Foreign":           props.C06_Foreign,
	"C06_Joined":            props.C06_Joined,
	"C06_Many":              props.C06_Many,
	"C06_Names":             props.C06_Names,
	"C06_Options":           props.C06_Options,
	"C06_Symbolic":          props.C06_Symbolic,
	"C06_Undirected":        props.C06_Undirected,
	"C06_Watched":           props.C06_Watched,
	"C07_AfterUpdates":      props.C07_AfterUpdates,
	"C07_Chain":             props.C07_Chain,
	"C07_Directed":          props.C07_Directed,
	"C07_Ended":             props.C07_Ended,
	"C07_Foreign":           props.C07_Foreign,
	"C07_Four":              props.C07_Four,
	"C07_Many":              props.C07_Many,
	"C07_Names":             props.C07_Names,
	"C07_Options":           props.C07_Options,
	"C07_Undirected":        props.C07_Undirected,
	"C07_Unknown":           props.C07_Unknown,
	"C07_Watched":           props.C07_Watched,
	"C08_Again":             props.C08_Again,
	"C08_AttrError":         props.C08_AttrError,
	"C08_Attrs":             props.C08_Attrs,
	"C08_Directed":          props.C08_Directed,
	"C08_Ended":             props.C08_Ended,
	"C08_Foreign":           props.C08_Foreign,
	"C08_Four":              props.C08_Four,
	"C08_Keys":              props.C08_Keys,
	"C08_Many":              props.C08_Many,
	"C08_Names":             props.C08_Names,
	"C08_OneAttrs":          props.C08_OneAttrs,
	"C08_Options":           props.C08_Options,
	"C08_Undirected":        props.C08_Undirected,
	"C08_Watched":           props.C08_Watched,
	"C09_Pairs":             props.C09_Pairs,
	"C09_Sequences":         props.C09_Sequences,
	"C09_Three":             props.C09_Three,
	"C10_Pairs":             props.C10_Pairs,
	"C10_ReadWrite":         props.C10_ReadWrite,
	"C10_Reader":            props.C10_Reader,
	"C10_Triples":           props.C10_Triples,
	"C11_Edge":              props.C11_Edge,
	"C11_InGraph":           props.C11_InGraph,
	"C11_Node":              props.C11_Node,
	"C12_AfterUpdates":      props.C12_AfterUpdates,
	"C12_Directed":          props.C12_Directed,
	"C12_IDs":               props.C12_IDs,
	"C12_Many":              props.C12_Many,
	"C12_MapOrder":          props.C12_MapOrder,
	"C12_Undirected":        props.C12_Undirected,
	"C12_Values":            props.C12_Values,
	"C13_Ended":             props.C13_Ended,
	"C13_Foreign":           props.C13_Foreign,
	"C13_History":           props.C13_History,
	"C13_Keys":              props.C13_Keys,
	"C13_Many":              props.C13_Many,
	"C13_Names":             props.C13_Names,
	"C13_Options":           props.C13_Options,
	"C13_SameEntity":        props.C13_SameEntity,
	"C13_Step":              props.C13_Step,
	"C13_Unknown":           props.C13_Unknown,
	"C13_Watched":           props.C13_Watched,
	"C14_Ended":             props.C14_Ended,
	"C14_Foreign":           props.C14_Foreign,
	"C14_Keys":              props.C14_Keys,
	"C14_Many":              props.C14_Many,
	"C14_Names":             props.C14_Names,
	"C14_SameEntity":        props.C14_SameEntity,
	"C14_Twice":             props.C14_Twice,
	"C14_Upsert":            props.C14_Upsert,
	"C14_Watched":           props.C14_Watched,
	"C15_Ended":             props.C15_Ended,
	"C15_Foreign":           props.C15_Foreign,
	"C15_History":           props.C15_History,
	"C15_Keys":              props.C15_Keys,
	"C15_Many":              props.C15_Many,
	"C15_Names":             props.C15_Names,
	"C15_Options":           props.C15_Options,
	"C15_Step":              props.C15_Step,
	"C15_Watched":           props.C15_Watched,
	"C16_Add":               props.C16_Add,
	"C16_Delete":            props.C16_Delete,
	"C16_Ended":             props.C16_Ended,
	"C16_Faults":            props.C16_Faults,
	"C16_Get":               props.C16_Get,
	"C16_Link":              props.C16_Link,
	"C16_Many":              props.C16_Many,
	"C16_Names":             props.C16_Names,
	"C16_Own":               props.C16_Own,
	"C16_Unlink":            props.C16_Unlink,
	"C17_Adds":              props.C17_Adds,
	"C17_Bulks":             props.C17_Bulks,
	"C17_Pairs":             props.C17_Pairs,
	"C17_Reads":             props.C17_Reads,
	"C17_Sequence":          props.C17_Sequence,
	"C17_WithGraph":         props.C17_WithGraph,
	"C18_Ended":             props.C18_Ended,
	"C18_Foreign":           props.C18_Foreign,
	"C18_History":           props.C18_History,
	"C18_Many":              props.C18_Many,
	"C18_Names":             props.C18_Names,
	"C18_Options":           props.C18_Options,
	"C18_Own":               props.C18_Own,
	"C18_Step":              props.C18_Step,
	"C18_Three":             props.C18_Three,
	"C19_Ended":             props.C19_Ended,
	"C19_Foreign":           props.C19_Foreign,
	"C19_Many":              props.C19_Many,
	"C19_Names":             props.C19_Names,
	"C19_Put":               props.C19_Put,
	"C19_Puts":              props.C19_Puts,
	"C19_SameLink":          props.C19_SameLink,
	"C19_Symbolic":          props.C19_Symbolic,
	"C20_Clear":             props.C20_Clear,
	"C20_Delete":            props.C20_Delete,
	"C20_Ended":             props.C20_Ended,
	"C20_Foreign":           props.C20_Foreign,
	"C20_Many":              props.C20_Many,
	"C20_Names":             props.C20_Names,
	"C20_Options":           props.C20_Options,
	"C20_Symbolic":          props.C20_Symbolic,
	"C20_Three":             props.C20_Three,
	"C21_Delete":            props.C21_Delete,
	"C21_Ended":             props.C21_Ended,
	"C21_Foreign":           props.C21_Foreign,
	"C21_Get":               props.C21_Get,
	"C21_Many":              props.C21_Many,
	"C21_Names":             props.C21_Names,
	"C21_Options":           props.C21_Options,
	"C21_Own":               props.C21_Own,
	"C21_Put":               props.C21_Put,
	"C21_SameLink":          props.C21_SameLink,
	"C22_Pairs":             props.C22_Pairs,
	"C22_Plan":              props.C22_Plan,
	"C22_Readers":           props.C22_Readers,
	"C22_Updates":           props.C22_Updates,
	"C23_Ended":             props.C23_Ended,
	"C23_Foreign":           props.C23_Foreign,
	"C23_History":           props.C23_History,
	"C23_Many":              props.C23_Many,
	"C23_Names":             props.C23_Names,
	"C23_Own":               props.C23_Own,
	"C23_SameResource":      props.C23_SameResource,
	"C23_Step":              props.C23_Step,
	"C24_Copy":              props.C24_Copy,
	"C24_Ended":             props.C24_Ended,
	"C24_Error":             props.C24_Error,
	"C24_FromNil":           props.C24_FromNil,
	"C24_Many":              props.C24_Many,
	"C24_Map":               props.C24_Map,
	"C24_Names":             props.C24_Names,
	"C24_Own":               props.C24_Own,
	"C25_Entity":            props.C25_Entity,
	"C25_Foreign":           props.C25_Foreign,
	"C25_Link":              props.C25_Link,
	"C25_Many":              props.C25_Many,
	"C25_Object":            props.C25_Object,
	"C25_Resource":          props.C25_Resource,
	"C26_Entity":            props.C26_Entity,
	"C26_Error":             props.C26_Error,
	"C26_Foreign":           props.C26_Foreign,
	"C26_Link":              props.C26_Link,
	"C26_Object":            props.C26_Object,
	"C26_Resource":          props.C26_Resource,
	"C26_SameUID":           props.C26_SameUID,
	"C26_ToSpace":           props.C26_ToSpace,
	"C27_Foreign":           props.C27_Foreign,
	"C27_Large":             props.C27_Large,
	"C27_Many":              props.C27_Many,
	"C27_RoundTrip":         props.C27_RoundTrip,
	"C27_SameBytes":         props.C27_SameBytes,
	"C27_SameUID":           props.C27_SameUID,
	"C27_Twice":             props.C27_Twice,
	"C27_Unicode":           props.C27_Unicode,
	"C28_Fields":            props.C28_Fields,
	"C28_Invalid":           props.C28_Invalid,
	"C28_Mangled":           props.C28_Mangled,
	"C28_MarshalError":      props.C28_MarshalError,
	"C28_Present":           props.C28_Present,
	"C28_Twice":             props.C28_Twice,
	"C28_Unsupported":       props.C28_Unsupported,
	"C29_DOT":               props.C29_DOT,
	"C29_Fresh":             props.C29_Fresh,
	"C29_Graph":             props.C29_Graph,
	"C29_Store":             props.C29_Store,
	"C29_SubGraph":          props.C29_SubGraph,
	"C30_Close":             props.C30_Close,
	"C30_Delivery":          props.C30_Delivery,
	"C30_Fails":             props.C30_Fails,
	"C30_FirstUse":          props.C30_FirstUse,
	"C30_Handlers":          props.C30_Handlers,
	"C30_History":           props.C30_History,
	"C30_Left":              props.C30_Left,
	"C30_Many":              props.C30_Many,
	"C30_Names":             props.C30_Names,
	"C30_NewTopic":          props.C30_NewTopic,
	"C30_Order":             props.C30_Order,
	"C30_Same":              props.C30_Same,
	"C30_Topics":            props.C30_Topics,
	"C30_Unchanged":         props.C30_Unchanged,
	"C31_Any":               props.C31_Any,
	"C31_First":             props.C31_First,
	"C31_Left":              props.C31_Left,
	"C31_Messages":          props.C31_Messages,
	"C31_Names":             props.C31_Names,
	"C31_Ready":             props.C31_Ready,
	"C31_Timeouts":          props.C31_Timeouts,
	"C32_Any":               props.C32_Any,
	"C32_Capacity":          props.C32_Capacity,
	"C32_Large":             props.C32_Large,
	"C32_Names":             props.C32_Names,
	"C32_Negative":          props.C32_Negative,
	"C32_Options":           props.C32_Options,
	"C32_Sessions":          props.C32_Sessions,
	"C32_Topics":            props.C32_Topics,
	"C32_Turnover":          props.C32_Turnover,
	"C32_Waiting":           props.C32_Waiting,
	"C33_CancelRace":        props.C33_CancelRace,
	"C33_Concurrent":        props.C33_Concurrent,
	"C33_Contexts":          props.C33_Contexts,
	"C33_History":           props.C33_History,
	"C33_Sessions":          props.C33_Sessions,
	"C34_Blocked":           props.C34_Blocked,
	"C34_Fresh":             props.C34_Fresh,
	"C34_ManySessions":      props.C34_ManySessions,
	"C34_Names":             props.C34_Names,
	"C34_Sessions":          props.C34_Sessions,
	"C34_Topics":            props.C34_Topics,
	"C35_Alive":             props.C35_Alive,
	"C35_Concurrent":        props.C35_Concurrent,
	"C35_Ended":             props.C35_Ended,
	"C35_IDs":               props.C35_IDs,
	"C35_InHandler":         props.C35_InHandler,
	"C35_Left":              props.C35_Left,
	"C35_Many":              props.C35_Many,
	"C35_Names":             props.C35_Names,
	"C35_Unsubscribe":       props.C35_Unsubscribe,
	"C35_Waiting":           props.C35_Waiting,
	"C36_Already":           props.C36_Already,
	"C36_Any":               props.C36_Any,
	"C36_Calls":             props.C36_Calls,
	"C36_Negative":          props.C36_Negative,
	"C36_Pub":               props.C36_Pub,
	"C36_Receive":           props.C36_Receive,
	"C36_Timeouts":          props.C36_Timeouts,
	"C37_Handover":          props.C37_Handover,
	"C37_Many":              props.C37_Many,
	"C37_Pairs":             props.C37_Pairs,
	"C37_Shutdown":          props.C37_Shutdown,
	"C37_Triples":           props.C37_Triples,
	"C37_Unopened":          props.C37_Unopened,
	"C38_Broker":            props.C38_Broker,
	"C38_Choice":            props.C38_Choice,
	"C38_Concurrent":        props.C38_Concurrent,
	"C38_History":           props.C38_History,
	"C38_Many":              props.C38_Many,
	"C38_Slices":            props.C38_Slices,
	"C38_Space":             props.C38_Space,
	"C39_Batch":             props.C39_Batch,
	"C39_Broker":            props.C39_Broker,
	"C39_Dump":              props.C39_Dump,
	"C39_DumpData":          props.C39_DumpData,
	"C39_DumpFails":         props.C39_DumpFails,
	"C39_During":            props.C39_During,
	"C39_Ended":             props.C39_Ended,
	"C39_History":           props.C39_History,
	"C39_Idle":              props.C39_Idle,
	"C39_Large":             props.C39_Large,
	"C39_Many":              props.C39_Many,
	"C39_Messages":          props.C39_Messages,
	"C39_Script":            props.C39_Script,
	"C39_Slices":            props.C39_Slices,
	"C40_Concurrent":        props.C40_Concurrent,
	"C40_History":           props.C40_History,
	"C40_Run":               props.C40_Run,
	"C40_Slices":            props.C40_Slices,
	"C41_Concurrent":        props.C41_Concurrent,
	"C41_Generated":         props.C41_Generated,
	"C41_Many":              props.C41_Many,
	"C41_String":            props.C41_String,
	"C41_Strings":           props.C41_Strings,
	"C42_Types":             props.C42_Types,
	"C43_Attrs":             props.C43_Attrs,
	"C43_Brokers":           props.C43_Brokers,
	"C43_Caches":            props.C43_Caches,
	"C43_Concurrent":        props.C43_Concurrent,
	"C43_Given":             props.C43_Given,
	"C43_Graphs":            props.C43_Graphs,
	"C43_Plans":             props.C43_Plans,
	"C43_Stores":            props.C43_Stores,
	"C43_Turns":             props.C43_Turns,
	"C44_Broker":            props.C44_Broker,
	"C44_Entity":            props.C44_Entity,
	"C44_Errors":            props.C44_Errors,
	"C44_Graph":             props.C44_Graph,
	"C44_Link":              props.C44_Link,
	"C44_Rest":              props.C44_Rest,
	"C44_Store":             props.C44_Store,
}
