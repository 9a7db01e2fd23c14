M="src/mathml/"
R=M+"renderer/"
T=[
 # parsing: helper tables, loops, switch
 (M+"parsing.ts","""  } else if (tagIs(element, "msub")) {
    const error = expectNChildren(element, 2, errors);
    if (error) return error;
    let base = toMathLayout(children[0], errors);
    if (!Array.isArray(base)) {
      base = [base];
    }
    return [...base, sub(wrapInRow(toMathLayout(children[1], errors)))];
  } else if (tagIs(element, "msup")) {
    const error = expectNChildren(element, 2, errors);
    if (error) return error;
    let base = toMathLayout(children[0], errors);
    if (!Array.isArray(base)) {
      base = [base];
    }
    return [...base, sup(wrapInRow(toMathLayout(children[1], errors)))];
""","""  } else if (tagIs(element, "msub", "msup")) {
    const error = expectNChildren(element, 2, errors);
    if (error !== null) return error;
    const [base, script] = children;
    const makeScript = tagIs(element, "msub") ? sub : sup;
    return asArray(toMathLayout(base, errors)).concat(makeScript(wrapInRow(toMathLayout(script, errors))));
"""),
 (M+"parsing.ts","""function expectNChildren(""","""function asArray<T>(value: T | T[]): T[] {
  return Array.isArray(value) ? value : [value];
}

function expectNChildren("""),
 (M+"parsing.ts","""    const tableWidth = children.map((c) => c.children.length).reduce((a, b) => Math.max(a, b), 0);
""","""    let tableWidth = 0;
    for (const tr of children) {
      if (tr.children.length > tableWidth) tableWidth = tr.children.length;
    }
"""),
 (M+"parsing.ts","""    const tableCells = children.flatMap((c) =>
      Array.from({ length: tableWidth }, (_, i) =>
        i < c.children.length ? wrapInRow(toMathLayout(c.children[i], errors)) : { values: [] }
      )
    );
""","""    const tableCells: InputRow[] = [];
    for (const { children: cells } of children) {
      for (let i = 0; i < tableWidth; i++) {
        const cell = cells[i];
        tableCells.push(cell ? wrapInRow(toMathLayout(cell, errors)) : { values: [] });
      }
    }
"""),
 (M+"parsing.ts","""  return {
    values: mathLayout.flatMap((v) => {
      if (isInputRow(v)) {
        return v.values;
      } else {
        return v;
      }
    }),
  };
""","""  const values: InputNode[] = [];
  for (const part of mathLayout) {
    if (isInputRow(part)) {
      values.push(...part.values);
    } else {
      values.push(part);
    }
  }
  return { values };
"""),
 (M+"parsing.ts","""  if (element.children.length != n) {
    errors.push(new Error(`Expected ${n} children in ${element.tagName.toLowerCase()}`));
    return symbol("Error");
  }
  return null;
""","""  if (element.childElementCount === n) return null;
  const name = element.tagName.toLowerCase();
  errors.push(new Error("Expected " + n + " children in " + name));
  return symbol("Error");
"""),
 (M+"parsing.ts","""    return [symbol('"'), ...unicodeSplit(getText(element)).map((v) => symbol(v)), symbol('"')];
""","""    const inner = unicodeSplit(getText(element));
    inner.unshift('"');
    inner.push('"');
    return inner.map(symbol);
"""),
 # render-result
 (M+"render-result.ts","""    let element = this.rootElement;

    for (let rowIndex of indices) {
      let [indexOfContainer, indexOfRow] = rowIndex;
      assert(element.syntaxTree.range.start <= indexOfContainer && indexOfContainer < element.syntaxTree.range.end);

      const childElement = getChildWithContainerIndex(element, indexOfContainer);
      const rowChildElement = childElement.getChildren().find((c) => c.rowIndex?.[1] === indexOfRow);
      assert(rowChildElement, `Couldn't find row ${indexOfRow} in ${childElement.syntaxTree.name}`);
      element = rowChildElement;
    }
    return element;
""","""    return [...indices].reduce((element, [indexOfContainer, indexOfRow]) => {
      const { start, end } = element.syntaxTree.range;
      assert(indexOfContainer >= start && indexOfContainer < end);
      const container = getChildWithContainerIndex(element, indexOfContainer);
      for (const candidate of container.getChildren()) {
        if (candidate.rowIndex !== null && candidate.rowIndex[1] === indexOfRow) return candidate;
      }
      throw new Error(`Couldn't find row ${indexOfRow} in ${container.syntaxTree.name}`);
    }, this.rootElement);
"""),
 (M+"render-result.ts","""        return children
          .map((v) => getSelectionHeight(v))
          .reduce(
            (a, b) => ({
              top: Math.min(a.top, b.top),
              bottom: Math.max(a.bottom, b.bottom),
            }),
            emptyHeight
          );
""","""        let { top, bottom } = emptyHeight;
        for (const child of children) {
          const height = getSelectionHeight(child);
          top = Math.min(top, height.top);
          bottom = Math.max(bottom, height.bottom);
        }
        return { top, bottom };
"""),
 (M+"render-result.ts","""    const selectionLeft = isForwards ? selection.start : selection.end;
    const selectionRight = isForwards ? selection.end : selection.start;
""","""    const selectionLeft = Math.min(selection.start, selection.end);
    const selectionRight = Math.max(selection.start, selection.end);
"""),
 (M+"render-result.ts","""        x: isForwards ? start.x : end.x,
""","""        x: (isForwards ? start : end).x,
"""),
 (M+"render-result.ts","""        for (const child of element.getChildren()) {
          const v = getLayoutElementContaining(child, indices.addRowIndex(child.rowIndex));
          if (v) {
            return v;
          }
        }
        return { element, indices };
""","""        const children = element.getChildren();
        let found: ElementWithIndices | null = null;
        for (let i = 0; found === null && i < children.length; i++) {
          found = getLayoutElementContaining(children[i], indices.addRowIndex(children[i].rowIndex));
        }
        return found ?? { element, indices };
"""),
 (M+"render-result.ts","""      getNewRowsChildren(element).forEach((v) => {
        assert(v.rowIndex !== null);
        roots.push({ element: v, indices: indices.addRowIndex(v.rowIndex) });
      });
""","""      for (const v of getNewRowsChildren(element)) {
        assert(v.rowIndex !== null);
        roots.push({ element: v, indices: indices.addRowIndex(v.rowIndex) });
      }
"""),
 (M+"render-result.ts","""      return element.getChildren().flatMap((c) => (c.rowIndex ? c : getNewRowsChildren(c)));
""","""      const result: RenderedElement<MathMLElement>[] = [];
      element.getChildren().forEach((c) => {
        if (c.rowIndex !== null) {
          result.push(c);
        } else {
          result.push(...getNewRowsChildren(c));
        }
      });
      return result;
"""),
 (M+"render-result.ts","""      let closest: Readonly<{
        renderedPosition: { position: ViewportCoordinate; offset: Offset } | null;
        distance: number;
      }> = {
        renderedPosition: null,
        distance: Infinity,
      };

      for (let i = element.syntaxTree.range.start; i <= element.syntaxTree.range.end; i++) {
        const renderedPosition = element.getCaretPosition(i);
        const distance = ViewportMath.distanceToPoint(position, renderedPosition);

        if (distance < closest.distance) {
          closest = {
            renderedPosition: { position: renderedPosition, offset: i },
            distance,
          };
        }
      }

      return closest.renderedPosition;
""","""      let best: { position: ViewportCoordinate; offset: Offset } | null = null;
      let bestDistance = Infinity;
      const { start, end } = element.syntaxTree.range;
      let offset = start;
      while (offset <= end) {
        const candidate = element.getCaretPosition(offset);
        const distance = ViewportMath.distanceToPoint(position, candidate);
        if (!(distance >= bestDistance)) {
          best = { position: candidate, offset };
          bestDistance = distance;
        }
        offset += 1;
      }
      return best;
"""),
 # renderers
 (R+"rendered-table-element.ts","""    const children: MathMLElement[] = [];
    for (let i = 0; i < tableCells.length; i += tableWidth) {
      const tableRow = tableCells.slice(i, i + tableWidth);
      children.push(
        createMathElement(
          "mtr",
          tableRow.map((v) => createMathElement("mtd", [wrapInMRow(v.getElements())]))
        )
      );
    }
""","""    const rowCount = Math.ceil(tableCells.length / tableWidth);
    const children = Array.from({ length: rowCount }, (_, row) => {
      const cells = tableCells
        .filter((_, i) => Math.floor(i / tableWidth) === row)
        .map((cell) => this.makeCell(cell.getElements()));
      return createMathElement("mtr", cells);
    });
"""),
 (R+"rendered-table-element.ts","""  getCaretSize() {""","""  private makeCell(content: MathMLElement[]) {
    return createMathElement("mtd", [wrapInMRow(content)]);
  }

  getCaretSize() {"""),
 (R+"rendered-table-element.ts","""    let positionReader: MathMLElement;

    if (offset == this.syntaxTree.range.start) {
      positionReader = this.startBaselineReader;
    } else if (offset == this.syntaxTree.range.end) {
      positionReader = this.endBaselineReader;
    } else {
      throw new Error("Don't know how to deal with this offset");
    }

    let { x, y } = positionReader.getBoundingClientRect();
    return { x: x, y: y };
""","""    const reader = offset === this.syntaxTree.range.start ? this.startBaselineReader : this.endBaselineReader;
    const bounds = reader.getBoundingClientRect();
    return { x: bounds.x, y: bounds.y };
"""),
 (R+"rendered-element.ts","""export function createMathElement(tagName: MathMLTags, children: ReadonlyArray<Node>) {
  const element = document.createElementNS(mathNamespace, tagName);
  children.forEach((c) => {
    element.appendChild(c);
  });
  return element;
""","""export function createMathElement(tagName: MathMLTags, children: ReadonlyArray<Node>) {
  const element = document.createElementNS(mathNamespace, tagName);
  element.append(...children);
  return element;
"""),
 (R+"rendered-element.ts","""  if (elements.length == 1) {
    return elements[0];
  } else {
    return createMathElement("mrow", elements);
  }
""","""  const [first, ...rest] = elements;
  return elements.length > 0 && rest.length === 0 ? first : createMathElement("mrow", elements);
"""),
 (R+"rendered-element.ts","""  const bounds = element.getBoundingClientRect();
  return {
    x: bounds.x,
    y: bounds.y,
    width: bounds.width,
    height: bounds.height,
  };
""","""  const { x, y, width, height } = element.getBoundingClientRect();
  return { x, y, width, height };
"""),
 (R+"rendered-leaf.ts","""    const graphemeOffset = offset - this.range.start;
    const atEnd = graphemeOffset >= this.textElements.length;
    const graphemeText = this.textElements[atEnd ? this.textElements.length - 1 : graphemeOffset];
    return { graphemeText, atEnd };
""","""    const last = this.textElements.length - 1;
    const graphemeOffset = offset - this.range.start;
    const atEnd = graphemeOffset > last;
    return { graphemeText: this.textElements[Math.min(graphemeOffset, last)], atEnd };
"""),
 ("src/input-tree/row-indices.ts","""  [Symbol.iterator](): Iterator<RowIndex> {
    let i = 0;
    return {
      next: () => {
        if (i >= this.indices.length) {
          return { done: true, value: undefined };
        }
        return { done: false, value: this.indices[i++] };
      },
    };
  }
""","""  *[Symbol.iterator](): Iterator<RowIndex> {
    for (const index of this.indices) {
      yield index;
    }
  }
"""),
 ("src/input-tree/row-indices.ts","""    if (index === null) return this;
    return new RowIndices(this.indices.concat([index]));
""","""    return index ? new RowIndices([...this.indices, index]) : this;
"""),
 (M+"renderer.ts","""      builtIn.add("Sup", (syntaxTree, rowIndex) => {
        assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
        return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
          newRowsOperatorOverride: (node, rowIndex) => {
            assert(hasSyntaxNodeChildren(node, "NewRows"));
            return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
          },
        });
      });
      builtIn.add("Sub", (syntaxTree, rowIndex) => {
        assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
        return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
          newRowsOperatorOverride: (node, rowIndex) => {
            assert(hasSyntaxNodeChildren(node, "NewRows"));
            return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
          },
        });
      });
""","""      const scripts = { Sup: "msup", Sub: "msub" } as const;
      for (const [scriptName, tag] of Object.entries(scripts)) {
        builtIn.add(scriptName, (syntaxTree, rowIndex) => this.renderScript(syntaxTree, rowIndex, tag));
      }
"""),
 (M+"renderer.ts","""  // TODO: Rendering errors is like""","""  private renderScript(syntaxTree: SyntaxNode, rowIndex: RowIndex | null, tag: "msup" | "msub") {
    assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
    return new SimpleContainerMathMLElement(syntaxTree, rowIndex, tag, this, {
      newRowsOperatorOverride: (node, rowIndex) => {
        assert(hasSyntaxNodeChildren(node, "NewRows"));
        return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
      },
    });
  }

  // TODO: Rendering errors is like"""),
 (M+"renderer.ts","""          if (typeof names === "string") {
            names = [names];
          }
          names.forEach((name) => {
            addRenderer(nameParts.concat([name]), renderer);
          });
""","""          for (const name of typeof names === "string" ? [names] : names) {
            addRenderer([...nameParts, name], renderer);
          }
"""),
 (M+"renderer.ts","""    this.nameMap.forEach((name, path) => {
      assert(this.renderers.get(name), `Renderer for ${path} (ID ${name}) is missing`);
    });
""","""    for (const [path, name] of this.nameMap.entries()) {
      assert(this.renderers.has(name), `Renderer for ${path} (ID ${name}) is missing`);
    }
"""),
]
