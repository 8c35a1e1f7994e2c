. /opt/vp/env.sh
cd /repo/pkg/parser && /tmp/pigeon -optimize-parser -optimize-grammar -alternate-entrypoints DocumentRawLine,DocumentFragment,NormalGroup,AttributeStructuredValue,DelimitedBlockElements,AttributeDeclarationValue,FileLocation,IncludedFileLine,MarkdownQuoteAttribution,BlockAttributes,InlineAttributes,TableColumnsAttribute,LineRanges,TagRanges,DocumentAuthorFullName -o ${1:-parser.go} parser.peg
