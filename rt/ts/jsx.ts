// Elements of views as plain objects.
export function H(tag: any, props: any, ...children: any[]): any {
    return {tag: tag, props: props || {}, children: children.flat(Infinity)}
}

export const F = "fragment"
