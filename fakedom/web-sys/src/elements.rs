// HTML element types without behaviour of their own.
web_type!(HtmlAnchorElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlAreaElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlBaseElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlBodyElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlBrElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlButtonElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlCanvasElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlDListElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlDataElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlDataListElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlDetailsElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlDialogElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlDirectoryElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlDivElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlEmbedElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlFieldSetElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlFontElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlFormElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlFrameElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlFrameSetElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlHeadElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlHeadingElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlHrElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlHtmlElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlIFrameElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlImageElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlInputElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlLabelElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlLegendElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlLiElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlLinkElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlMapElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlMenuElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlMenuItemElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlMetaElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlMeterElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlModElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlOListElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlObjectElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlOptGroupElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlOptionElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlOutputElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlParagraphElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlParamElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlPictureElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlPreElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlProgressElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlQuoteElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlScriptElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlSelectElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlSlotElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlSourceElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlSpanElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlStyleElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlTableCaptionElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlTableCellElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlTableColElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlTableElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlTableRowElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlTableSectionElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlTemplateElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlTextAreaElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlTimeElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlTitleElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlTrackElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlUListElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlUnknownElement: HtmlElement, Element, Node, EventTarget);
