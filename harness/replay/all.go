// Code generated by gen.sh. DO NOT EDIT.

package main

import "verif/harness/props"

var all = map[string]func(){
	"HActionHuge":         props.HActionHuge,
	"HActionMany":         props.HActionMany,
	"HActionOrder":        props.HActionOrder,
	"HAllow":              props.HAllow,
	"HAllowTwo":           props.HAllowTwo,
	"HArgsGet":            props.HArgsGet,
	"HArgsGetHuge":        props.HArgsGetHuge,
	"HArgsGetMany":        props.HArgsGetMany,
	"HArgsPost":           props.HArgsPost,
	"HArgsPostBad":        props.HArgsPostBad,
	"HArgsPostHuge":       props.HArgsPostHuge,
	"HArgsPostMany":       props.HArgsPostMany,
	"HAttack":             props.HAttack,
	"HBlockMany":          props.HBlockMany,
	"HBodyAfter":          props.HBodyAfter,
	"HBodyEarly":          props.HBodyEarly,
	"HBodyGate":           props.HBodyGate,
	"HBodyGateLong":       props.HBodyGateLong,
	"HBodyOthers":         props.HBodyOthers,
	"HBodyRaw":            props.HBodyRaw,
	"HBodyTypes":          props.HBodyTypes,
	"HBufAppend":          props.HBufAppend,
	"HBufClose":           props.HBufClose,
	"HBufContent":         props.HBufContent,
	"HBufFaults":          props.HBufFaults,
	"HBufHuge":            props.HBufHuge,
	"HBufLimits":          props.HBufLimits,
	"HBufMany":            props.HBufMany,
	"HBufReadOnly":        props.HBufReadOnly,
	"HBufReread":          props.HBufReread,
	"HBufSeek":            props.HBufSeek,
	"HChain":              props.HChain,
	"HChainActions":       props.HChainActions,
	"HChainHuge":          props.HChainHuge,
	"HChainMany":          props.HChainMany,
	"HCompare":            props.HCompare,
	"HCompareArg":         props.HCompareArg,
	"HCompareHuge":        props.HCompareHuge,
	"HCompareLimits":      props.HCompareLimits,
	"HCompareLong":        props.HCompareLong,
	"HContentType":        props.HContentType,
	"HCookieEarly":        props.HCookieEarly,
	"HCookieOthers":       props.HCookieOthers,
	"HCookies":            props.HCookies,
	"HCookiesHuge":        props.HCookiesHuge,
	"HCookiesMany":        props.HCookiesMany,
	"HCount":              props.HCount,
	"HData":               props.HData,
	"HDecodeHuge":         props.HDecodeHuge,
	"HDeny":               props.HDeny,
	"HEarly":              props.HEarly,
	"HEngines":            props.HEngines,
	"HFilter":             props.HFilter,
	"HFilterHuge":         props.HFilterHuge,
	"HFilterMany":         props.HFilterMany,
	"HFlowHuge":           props.HFlowHuge,
	"HFlowMany":           props.HFlowMany,
	"HFresh":              props.HFresh,
	"HHeaders":            props.HHeaders,
	"HHeadersHuge":        props.HHeadersHuge,
	"HHeadersMany":        props.HHeadersMany,
	"HIsolation":          props.HIsolation,
	"HLog":                props.HLog,
	"HLogError":           props.HLogError,
	"HLogHuge":            props.HLogHuge,
	"HLowerLong":          props.HLowerLong,
	"HLowercase":          props.HLowercase,
	"HLowercaseFold":      props.HLowercaseFold,
	"HMapNames":           props.HMapNames,
	"HMapOrder":           props.HMapOrder,
	"HModes":              props.HModes,
	"HModesBody":          props.HModesBody,
	"HMultipart":          props.HMultipart,
	"HMultipartBad":       props.HMultipartBad,
	"HMultipartFiles":     props.HMultipartFiles,
	"HMultipartHuge":      props.HMultipartHuge,
	"HMultipartMany":      props.HMultipartMany,
	"HNoFiles":            props.HNoFiles,
	"HNone":               props.HNone,
	"HNulls":              props.HNulls,
	"HOthers":             props.HOthers,
	"HPairOthers":         props.HPairOthers,
	"HParseActions":       props.HParseActions,
	"HParseActionsMany":   props.HParseActionsMany,
	"HParseAny":           props.HParseAny,
	"HParseBoundary":      props.HParseBoundary,
	"HParseComma":         props.HParseComma,
	"HParseCut":           props.HParseCut,
	"HParseHuge":          props.HParseHuge,
	"HParseInside":        props.HParseInside,
	"HParseLines":         props.HParseLines,
	"HParseLong":          props.HParseLong,
	"HParseMid":           props.HParseMid,
	"HParseNumbers":       props.HParseNumbers,
	"HParseOperator":      props.HParseOperator,
	"HParseReader":        props.HParseReader,
	"HParseSequence":      props.HParseSequence,
	"HParseTail":          props.HParseTail,
	"HParseUnknown":       props.HParseUnknown,
	"HParseValueNear":     props.HParseValueNear,
	"HParseValues":        props.HParseValues,
	"HParseVariables":     props.HParseVariables,
	"HParseVariablesMany": props.HParseVariablesMany,
	"HParts":              props.HParts,
	"HPartsHuge":          props.HPartsHuge,
	"HPhaseOrder":         props.HPhaseOrder,
	"HPhaseScope":         props.HPhaseScope,
	"HPhases":             props.HPhases,
	"HPhasesMany":         props.HPhasesMany,
	"HPosition":           props.HPosition,
	"HQueryEarly":         props.HQueryEarly,
	"HQueryOthers":        props.HQueryOthers,
	"HQueryRaw":           props.HQueryRaw,
	"HReadEscapes":        props.HReadEscapes,
	"HReadString":         props.HReadString,
	"HReadWordString":     props.HReadWordString,
	"HRequestURI":         props.HRequestURI,
	"HResponseBody":       props.HResponseBody,
	"HResult":             props.HResult,
	"HResultMany":         props.HResultMany,
	"HRuleHuge":           props.HRuleHuge,
	"HRuleMatch":          props.HRuleMatch,
	"HRuleMatchMany":      props.HRuleMatchMany,
	"HRx":                 props.HRx,
	"HRxBad":              props.HRxBad,
	"HRxHuge":             props.HRxHuge,
	"HRxLong":             props.HRxLong,
	"HScalarEarly":        props.HScalarEarly,
	"HScalarOthers":       props.HScalarOthers,
	"HScalars":            props.HScalars,
	"HSecAct":             props.HSecAct,
	"HSecBlock":           props.HSecBlock,
	"HSecChain":           props.HSecChain,
	"HSecChainLong":       props.HSecChainLong,
	"HSecEngine":          props.HSecEngine,
	"HSecFlow":            props.HSecFlow,
	"HSecHuge":            props.HSecHuge,
	"HSecIds":             props.HSecIds,
	"HSecManyDirectives":  props.HSecManyDirectives,
	"HSecMatch":           props.HSecMatch,
	"HSecMeta":            props.HSecMeta,
	"HSecNames":           props.HSecNames,
	"HSecPhase":           props.HSecPhase,
	"HSecReject":          props.HSecReject,
	"HSecTargets":         props.HSecTargets,
	"HSecTargetsMany":     props.HSecTargetsMany,
	"HSecTrans":           props.HSecTrans,
	"HSecVars":            props.HSecVars,
	"HStatusScope":        props.HStatusScope,
	"HSticky":             props.HSticky,
	"HTotal":              props.HTotal,
	"HTransHuge":          props.HTransHuge,
	"HTransLong":          props.HTransLong,
	"HURIEarly":           props.HURIEarly,
	"HURILong":            props.HURILong,
	"HURIOthers":          props.HURIOthers,
	"HURIParts":           props.HURIParts,
	"HURLDecode":          props.HURLDecode,
	"HURLDecodeUni":       props.HURLDecodeUni,
	"HURLDecodeUniShort":  props.HURLDecodeUniShort,
	"HURLRoundTrip":       props.HURLRoundTrip,
	"HUniLong":            props.HUniLong,
	"HUntouched":          props.HUntouched,
	"HWhitespace":         props.HWhitespace,
}
