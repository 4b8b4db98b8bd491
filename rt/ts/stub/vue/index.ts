// What generated views need of vue, as far as types go.
declare global {
    namespace JSX {
        type Element = any

        interface IntrinsicElements {
            [name: string]: any
        }
    }
}

export function defineComponent(component: { name: string, props: Record<string, any>, setup: (props: any) => any }): any {
    return component
}
