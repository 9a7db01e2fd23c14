import re
M="src/mathml/"
R=M+"renderer/"
def rd(f): return open("/repo/"+f).read()
def between(f,a,b):
    s=rd(f);i=s.index(a);j=s.index(b,i);return s[i:j]
caret=between(R+"rendered-root-element.ts","  getCaretPosition(","  getChildren() {")
T=[
 # a shared base class for containers with baseline readers
 (R+"rendered-root-element.ts",caret,""),
 (R+"rendered-root-element.ts","""export class RootMathMLElement implements RenderedElement<MathMLElement> {
  element: RenderedMathML;
  startBaselineReader: MathMLElement;
  endBaselineReader: MathMLElement;

  constructor(
    public syntaxTree: SyntaxNodeWith<"NewRows">,
    public rowIndex: RowIndex | null,
    elementName: MathMLTags,
    renderer: Renderer<MathMLElement>
  ) {
    assert(syntaxTree.children.NewRows.values.length > 0, "Needs at least one child");
    this.element = new RenderedMathML(createMathElement(elementName, []));
    this.startBaselineReader = createMathElement("mphantom", []);
    this.endBaselineReader = createMathElement("mphantom", []);
    const indexOfContainer""","""abstract class Baselined {
  readonly startBaselineReader = createMathElement("mphantom", []);
  readonly endBaselineReader = createMathElement("mphantom", []);
  abstract element: RenderedMathML;
  abstract syntaxTree: SyntaxNodeWith<"NewRows">;

  protected get readers(): readonly [MathMLElement, MathMLElement] {
    return [this.startBaselineReader, this.endBaselineReader];
  }

  getCaretPosition(offset: number): ViewportCoordinate {
    const { start, end } = this.syntaxTree.range;
    switch (offset) {
      case start:
      case end: {
        const { x, y } = this.readers[offset === start ? 0 : 1].getBoundingClientRect();
        return { x, y };
      }
      default:
        throw new Error("Invalid offset");
    }
  }

  getElements(): MathMLElement[] {
    const [before, after] = this.readers;
    return [before, ...this.element.getElements(), after];
  }
}

export class RootMathMLElement extends Baselined implements RenderedElement<MathMLElement> {
  element: RenderedMathML;

  constructor(
    public syntaxTree: SyntaxNodeWith<"NewRows">,
    public rowIndex: RowIndex | null,
    elementName: MathMLTags,
    renderer: Renderer<MathMLElement>
  ) {
    super();
    assert(syntaxTree.children.NewRows.values.length > 0, "Needs at least one child");
    this.element = new RenderedMathML(createMathElement(elementName, []));
    const indexOfContainer"""),
 (R+"rendered-root-element.ts","""      children
        .slice()
        .reverse()
        .map((v) => wrapInMRow(v.getElements()))
""","""      children.reduceRight<MathMLElement[]>((elements, v) => {
        elements.push(wrapInMRow(v.getElements()));
        return elements;
      }, [])
"""),
 (R+"rendered-rows-element.ts","""    this.element.setChildren(
      syntaxTree.children.NewRows.values.map((c, rowIndex) => renderer.render(c, [indexOfContainer, rowIndex]))
    );
""","""    const rendered: RenderedElement<MathMLElement>[] = [];
    for (const [row, node] of syntaxTree.children.NewRows.values.entries()) {
      rendered.push(renderer.render(node, [indexOfContainer, row]));
    }
    this.element.setChildren(rendered);
"""),
 (R+"rendered-container-element.ts","""    const child = this.element
      .getChildren()
      .find((c) => c.syntaxTree.range.start <= offset && offset <= c.syntaxTree.range.end);
    if (child) {
      return child.getCaretPosition(offset);
    } else {
      throw new Error("Should not happen");
    }
""","""    const children = this.element.getChildren();
    const index = children.findIndex(({ syntaxTree: { range } }) => offsetInRange(offset, range));
    if (index === -1) throw new Error("Should not happen");
    return children[index].getCaretPosition(offset);
"""),
 (R+"rendered-container-element.ts","""import type { SyntaxNodeWith } from "../../core";
""","""import { offsetInRange, type SyntaxNodeWith } from "../../core";
"""),
 (R+"rendered-text-element.ts","""    let x: number;
    if (offset <= this.syntaxTree.range.start) {
      x = boundingRect.left;
    } else if (offset >= this.syntaxTree.range.end) {
      x = boundingRect.right;
    } else {
      x = this.textElement.getViewportXPosition(offset).x;
    }

    const baseline = this.textElement.getBaseline(offset).y;
    return { x: x, y: baseline };
""","""    const x =
      offset <= this.syntaxTree.range.start
        ? boundingRect.x
        : offset >= this.syntaxTree.range.end
        ? boundingRect.x + boundingRect.width
        : this.textElement.getViewportXPosition(offset).x;
    const { y } = this.textElement.getBaseline(offset);
    return { x, y };
"""),
 (R+"rendered-missing.ts","""    const x = (boundingBox.left + boundingBox.right) / 2;
""","""    const x = boundingBox.left + (boundingBox.right - boundingBox.left) / 2;
"""),
 (R+"rendered-symbol-element.ts","""    if (options.isStretchy) {
      mathElement.setAttribute("stretchy", "true");
    }
""","""    const { isStretchy = false } = options;
    if (isStretchy) mathElement.setAttribute("stretchy", String(isStretchy));
"""),
 ("src/rendering/viewport-coordinate.ts","""    const dx = Math.max(bounds.x - position.x, position.x - (bounds.x + bounds.width));
    const dy = Math.max(bounds.y - position.y, position.y - (bounds.y + bounds.height));

    return Math.sqrt(Math.max(0, dx) ** 2 + Math.max(0, dy) ** 2);
""","""    const outside = (value: number, start: number, size: number) => Math.max(start - value, 0, value - (start + size));
    return Math.hypot(outside(position.x, bounds.x, bounds.width), outside(position.y, bounds.y, bounds.height));
"""),
 ("src/rendering/viewport-coordinate.ts","""    return Math.hypot(b.x - a.x, b.y - a.y);
""","""    return Math.sqrt(ViewportMath.distanceToPointSquared(a, b));
"""),
 ("src/core/index.ts","""export function makeMathParserWith(modules: BoxedParseModule[]) {
  const collection = new ParseModuleCollectionBindings(ModulesCreator);
  for (let module of modules) {
    collection.add_module(module);
  }
  return new MathParserBindings(collection);
}
""","""export function makeMathParserWith(modules: readonly BoxedParseModule[]) {
  const collection = new ParseModuleCollectionBindings(ModulesCreator);
  modules.forEach((module) => collection.add_module(module));
  return new MathParserBindings(collection);
}
"""),
 ("src/core/index.ts","""  if (!Array.isArray(value) && "values" in value) {
    // Silly hacks to force Typescript to do its job of checking if the condition above is actually good enough
    const _v = value satisfies InputRow;
    assert(true || _v);
    return true;
  }
  return false;
""","""  return !Array.isArray(value) && "values" in value;
"""),
 ("src/core/index.ts","""  return childType in node.children;
""","""  return Object.keys(node.children).includes(childType);
"""),
 ("src/core/index.ts","""  return range.start <= offset && offset <= range.end;
""","""  return !(offset < range.start || offset > range.end);
"""),
 ("src/core/index.ts","""    const childNode = getChildWithNewRows(node, indexOfContainer);
    let rowChildElement: SyntaxNode | undefined;
    if (hasSyntaxNodeChildren(childNode, "NewRows")) {
      rowChildElement = childNode.children.NewRows.values[indexOfRow];
    } else {
      assert(false, "Expected to find NewRows");
    }
""","""    const rowChildElement: SyntaxNode | undefined = getChildWithNewRows(node, indexOfContainer).children.NewRows.values.at(indexOfRow);
"""),
 (M+"parsing.ts",between(M+"parsing.ts","  } else if (tagIs(element, \"munder\")) {","  } else if (tagIs(element, \"mtable\")) {"),"""  } else if (tagIs(element, "munder", "mover", "munderover")) {
    // It's usually a sub/sup
    const scripts = underOver[element.tagName.toLowerCase()];
    const error = expectNChildren(element, scripts.length + 1, errors);
    if (error) return error;
    const result = wrapInRow(toMathLayout(children[0], errors)).values.slice();
    for (let i = 0; i < scripts.length; i++) {
      result.push(scripts[i](wrapInRow(toMathLayout(children[i + 1], errors))));
    }
    return result;
"""),
 (M+"parsing.ts","""// Time to iterate""","""const underOver: Record<string, ((row: InputRow) => InputNode)[]> = {
  munder: [sub],
  mover: [sup],
  munderover: [sub, sup],
};

// Time to iterate"""),
 (M+"parsing.ts","""    if (!children.every((c) => tagIs(c, "mtr") && [...c.children].every((cc) => tagIs(cc, "mtd")))) {
""","""    const isCell = (cell: Element) => tagIs(cell, "mtd");
    const isRow = (row: Element) => tagIs(row, "mtr") && Array.from(row.children).every(isCell);
    if (children.some((c) => !isRow(c))) {
"""),
 (M+"parsing.ts","""  return tagNames.includes(element.tagName.toLowerCase());
""","""  const actual = element.tagName.toLowerCase();
  return tagNames.some((name) => name === actual);
"""),
 (M+"parsing.ts","""    return Array.from(intlSegmenter.segment(text), ({ segment }) => segment);
""","""    return [...intlSegmenter.segment(text)].map((v) => v.segment);
"""),
 (M+"render-result.ts","""    while (roots.length > 0) {
      const root = roots.pop();
      assert(root !== undefined);
      const { element, indices } = root;
""","""    for (let root = roots.pop(); root !== undefined; root = roots.pop()) {
      const { element, indices } = root;
"""),
 (M+"render-result.ts","""      const newClosest = {
        indicesAndOffset: {
          indices: indices,
          offset: potential.offset,
        },
        distance: ViewportMath.distanceToPoint(position, potential.position),
      };

      if (newClosest.distance < closest.distance) {
        closest = newClosest;
      }
""","""      const distance = ViewportMath.distanceToPoint(position, potential.position);
      closest = distance < closest.distance ? { indicesAndOffset: { indices, offset: potential.offset }, distance } : closest;
"""),
 (M+"render-result.ts","""  // Only walk down if we're still on the same row
  if (hasSyntaxNodeChildren(element.syntaxTree, "Children")) {
    for (let childElement of element.getChildren()) {
      // If we find a better matching child, we go deeper. Notice how the end bound, aka length, is exclusive.
      if (childElement.syntaxTree.range.start <= indexOfContainer && indexOfContainer < childElement.syntaxTree.range.end) {
        return getChildWithContainerIndex(childElement, indexOfContainer);
      }
    }
  }

  // Giving up, returning the current element
  return element;
""","""  let current = element;
  while (hasSyntaxNodeChildren(current.syntaxTree, "Children")) {
    const next = current
      .getChildren()
      .find(({ syntaxTree: { range } }) => range.start <= indexOfContainer && range.end > indexOfContainer);
    if (!next) break;
    current = next;
  }
  return current;
"""),
 (M+"render-result.ts","""      const isDisjoint = selectionRight <= element.syntaxTree.range.start || element.syntaxTree.range.end <= selectionLeft;
      if (isDisjoint) {
        return emptyHeight;
      }
      const isFullyContained =
        selectionLeft <= element.syntaxTree.range.start && element.syntaxTree.range.end <= selectionRight;
      // If it's just intersecting, try going deeper.
      const isIntersecting = !isDisjoint && !isFullyContained;
      const children""","""      const { start, end } = element.syntaxTree.range;
      if (Math.max(start, selectionLeft) >= Math.min(end, selectionRight)) {
        return emptyHeight;
      }
      const isIntersecting = start < selectionLeft || selectionRight < end;
      const children"""),
]
